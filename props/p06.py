from pv.prove import *
from psion.jose.jwt import JsonWebTokenClaims

def enforced(E):
    c = E.dict_arg("claims")
    o = E.dict_arg("options")
    k = z3.Const("in_claim", Val)
    E.fact(z3.Not(Val.is_absent(k)))
    E.inputs["claim"] = Sym(k)
    E.assume(Val.is_vstr(k))
    E.assume(Val.is_vdict(at(E, o, Sym(k))))
    start_clock(E)
    r = E.do(JsonWebTokenClaims, c, o)
    if not r.ok: return E.cover("rejected")
    E.cover("accepted")
    for l, f in option_rule(E, c, o, k)[0]: E.ensure(l, f)

def satisfied(E):
    c = E.dict_arg("claims")
    o = E.dict_arg("options")
    k = E.bound(Val)
    rs, r4 = option_rule(E, c, o, k)
    E.assume(d_some(Val.did(c.t)))
    E.assume(z3.ForAll([k], z3.And(*[f for _, f in rs], r4), patterns=[z3.Select(E.arr(E.dict_of(o)), k)]))
    start_clock(E)
    r0 = E.do(JsonWebTokenClaims, c)
    if not r0.ok: return
    # the same instant
    E.ghost["frozen"] = E.clock
    r = E.do(JsonWebTokenClaims, c, o)
    E.cover("called")
    E.ensure("claims that are acceptable and satisfy all the options are accepted", r.ok)

def ignored(E):
    c = E.dict_arg("claims")
    o = [None, HDict()][E.choose(2)]
    start_clock(E)
    r = E.do(JsonWebTokenClaims, c, o)
    E.cover("called")
    if r.ok: E.ensure("without options the claims are taken as they are", E.same_dict(r.v, HDict(base=filt_arr(E, E.arr(E.dict_of(c))))))

def proofs():
    return [Proof("C06.enforced", enforced, ["accepted", "rejected"], "acceptance implies every option, for every claim name"),
            Proof("C06.satisfied", satisfied, ["called"]), Proof("C06.none", ignored, ["called"])]
