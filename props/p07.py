from pv.prove import *
from psion.jose.jwt import JsonWebTokenClaims

def accept(E):
    c = E.arg("claims")
    start_clock(E)
    r = E.do(JsonWebTokenClaims, c)
    if not r.ok: return E.cover("rejected")
    E.cover("accepted")
    E.ensure("only a non-empty dictionary is accepted", z3.And(Val.is_vdict(c.t), d_some(Val.did(c.t))))
    for l, f in claim_types(E, c): E.ensure(l, f)
    E.ensure("the result is a claims dictionary", isinstance(r.v, HObj) and r.v.d is not None and issubclass(r.v.cls, JsonWebTokenClaims))
    E.ensure("the claims are the given ones without null entries", E.same_dict(r.v, HDict(base=filt_arr(E, E.arr(E.dict_of(c))))))

def proofs():
    return [Proof("C07.accept", accept, ["accepted", "rejected"], "JsonWebTokenClaims(c) returns only for well-typed c, holding exactly c without nulls")]
