from pv.prove import *
from psion.jose.jwt import JsonWebTokenClaims

def accept(E):
    c = E.dict_arg("claims")
    t0 = start_clock(E)
    r = E.do(JsonWebTokenClaims, c)
    t1 = end_clock(E)
    if not r.ok: return E.cover("rejected")
    E.cover("accepted")
    for l, f in window(E, c, t0, t1): E.ensure(l, f)

def inside(E):
    c = E.dict_arg("claims")
    t0 = start_clock(E)
    E.assume(d_some(Val.did(c.t)))
    E.assume(claim_types_all(E, c))
    e, n, i = (at(E, c, x) for x in ("exp", "nbf", "iat"))
    R_ = lambda t: z3.ToReal(Val.i(t))
    E.assume(z3.And(z3.Implies(given(n), R_(n) <= t0), z3.Implies(given(i), R_(i) <= t0)))
    r = E.do(JsonWebTokenClaims, c)
    t1 = end_clock(E)
    if r.ok: return E.cover("accepted")
    E.cover("rejected")
    E.ensure("a claims object inside its window throughout the call is not rejected", z3.And(given(e), R_(e) <= t1))

def optioned(E):
    c = E.dict_arg("claims")
    o = E.dict_arg("options")
    t0 = start_clock(E)
    r = E.do(JsonWebTokenClaims, c, o)
    t1 = end_clock(E)
    if not r.ok: return E.cover("rejected")
    E.cover("accepted")
    for l, f in window(E, c, t0, t1): E.ensure(l, f)

def proofs():
    return [Proof("C05.accept", accept, ["accepted", "rejected"], "acceptance implies the validity window, for every clock and time zone"),
            Proof("C05.inside", inside, ["accepted", "rejected"]),
            Proof("C05.options", optioned, ["accepted", "rejected"])]
