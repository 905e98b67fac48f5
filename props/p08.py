from pv.prove import *
from psion.jose.jws import JsonWebSignatureHeader
from psion.jose.jwa import jws as A

ALGS = ["none"] + [p + n for p in ("HS", "RS", "ES", "PS") for n in ("256", "384", "512")]

def header(E):
    h = E.arg("header")
    r = E.do(JsonWebSignatureHeader, h)
    if not r.ok:
        E.cover("rejected")
        return
    E.cover("accepted")
    E.ensure("only a non-empty dictionary is accepted", z3.And(Val.is_vdict(h.t), d_some(Val.did(h.t))))
    f, alg = header_rules(E, h)
    for label, c in f: E.ensure(label, c)
    o = r.v
    E.ensure("the header is a dictionary object", isinstance(o, HObj) and o.d is not None)
    E.ensure("the accepted header is the given one without null entries", E.same_dict(o, HDict(base=filt_arr(E, E.arr(E.dict_of(h))))))
    a = E.do(lambda x: x, None) if False else E.getattr(o, "algorithm")
    E.ensure("its algorithm is the one named by alg", And(*[Implies(alg == E.term(n), a is getattr(A, n)) for n in ALGS]))

def proofs():
    return [Proof("C08.header", header, ["accepted", "rejected"], "JsonWebSignatureHeader(h) returns only for well-formed h")]
