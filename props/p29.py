from pv.prove import *
from psion.oidc.claims import IDToken
from psion.jose.jwt import JsonWebTokenClaims

def int_when_given(E, c, n):
    t = at(E, c, n)
    return z3.Implies(given(t), Val.is_vint(t))

def accept(E):
    c = E.arg("claims")
    t0 = start_clock(E)
    r = E.do(IDToken, c)
    t1 = end_clock(E)
    if not r.ok: return E.cover("rejected")
    E.cover("accepted")
    E.ensure("only a non-empty dictionary is accepted", z3.And(Val.is_vdict(c.t), d_some(Val.did(c.t))))
    for l, f in claim_types(E, c) + window(E, c, t0, t1): E.ensure(l, f)
    E.ensure("auth_time is an integer when given", int_when_given(E, c, "auth_time"))
    E.ensure("the result is a claims dictionary", isinstance(r.v, HObj) and r.v.d is not None and issubclass(r.v.cls, JsonWebTokenClaims))
    E.ensure("the claims are the given ones without null entries", E.same_dict(r.v, HDict(base=filt_arr(E, E.arr(E.dict_of(c))))))

def expected(E):
    """An expected nonce, on its own or among other options."""
    c = E.dict_arg("claims")
    o = E.dict_arg("options")
    n = at(E, o, "nonce")
    E.assume(nonempty_str(n))
    t0 = start_clock(E)
    r = E.do(IDToken, c, o)
    t1 = end_clock(E)
    if not r.ok: return E.cover("rejected")
    E.cover("accepted")
    E.ensure("the nonce claim equals the expected nonce", at(E, c, "nonce") == n)
    E.ensure("auth_time is an integer when given", int_when_given(E, c, "auth_time"))
    for l, f in claim_types(E, c) + window(E, c, t0, t1): E.ensure(l, f)

def options(E):
    """Every other option is enforced as for any JWT."""
    c = E.dict_arg("claims")
    o = E.dict_arg("options")
    k = z3.Const("in_claim", Val)
    E.fact(z3.Not(Val.is_absent(k)))
    E.inputs["claim"] = Sym(k)
    E.assume(z3.And(Val.is_vstr(k), k != E.term("nonce")))
    E.assume(Val.is_vdict(at(E, o, Sym(k))))
    start_clock(E)
    r = E.do(IDToken, c, o)
    if not r.ok: return E.cover("rejected")
    E.cover("accepted")
    for l, f in option_rule(E, c, o, k)[0]: E.ensure(l, f)

def valid(E):
    """Claims satisfying all the rules are accepted."""
    c = E.dict_arg("claims")
    t0 = start_clock(E)
    E.assume(d_some(Val.did(c.t)))
    E.assume(claim_types_all(E, c))
    E.assume(int_when_given(E, c, "auth_time"))
    ma, a = at(E, c, "max_age"), at(E, c, "auth_time")
    E.assume(z3.Or(Val.is_absent(ma), z3.Not(truthy_t(E, ma)), z3.And(given(a), truthy_t(E, a))))
    e, n, i = (at(E, c, x) for x in ("exp", "nbf", "iat"))
    R_ = lambda t: z3.ToReal(Val.i(t))
    E.assume(z3.And(z3.Implies(given(n), R_(n) <= t0), z3.Implies(given(i), R_(i) <= t0)))
    w = E.choose(3)
    nonce = at(E, c, "nonce")
    if w == 0: r = E.do(IDToken, c)
    elif w == 1: r = E.do(IDToken, c, HDict())
    else:
        E.assume(Val.is_vstr(nonce))
        r = E.do(IDToken, c, HDict(layers=[("nonce", Sym(nonce))]))
    t1 = end_clock(E)
    E.cover("accepted" if r.ok else "rejected")
    if not r.ok: E.ensure("valid claims are rejected only when they expired during the call", z3.And(given(e), R_(e) <= t1))

def proofs():
    return [Proof("C29.accept", accept, ["accepted", "rejected"], "acceptance implies the JWT rules and an integer auth_time"),
            Proof("C29.nonce", expected, ["accepted", "rejected"], "acceptance implies the expected nonce"),
            Proof("C29.options", options, ["accepted", "rejected"]), Proof("C29.valid", valid, ["accepted", "rejected"], "valid claims are accepted")]
