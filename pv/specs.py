"""Specification functions shared by the property proofs (formulas over symbolic values; no code of psion in here)."""
from .verify import *
from .libmodels import *
from .models import *

ALGS = ["none"] + [p + n for p in ("HS", "RS", "ES", "PS") for n in ("256", "384", "512")]

def at(E, d, key):
    return E.get(d, key)

def nonempty_str(t): return z3.And(Val.is_vstr(t), Val.s(t) != z3.StringVal(""))

def truthy_t(E, t):
    return zb(E.truthy(Sym(t)))

def header_rules(E, h):
    """[(label, formula)] of the rules of C08 over a dictionary value, and the alg term."""
    alg = at(E, h, "alg")
    out = [("alg is a supported algorithm name", z3.Or([alg == E.term(n) for n in ALGS]))]
    for n in ("kid", "typ", "cty"):
        t = at(E, h, n)
        out.append((f"{n} is a non-empty string when present", z3.Or(Val.is_absent(t), nonempty_str(t))))
    crit = at(E, h, "crit")
    l = Val.lid(crit)
    A = E.arr(E.dict_of(h))
    j = z3.FreshConst(I, "j")
    it = l_item(l, j)
    E.fact(z3.Implies(z3.And(0 <= j, j < l_len(l)), z3.Not(Val.is_absent(it))))
    out.append(("crit is a non-empty list when present", z3.Or(Val.is_absent(crit), z3.And(Val.is_vlist(crit), l_len(l) > 0))))
    el = z3.Implies(z3.And(Val.is_vlist(crit), 0 <= j, j < l_len(l)), z3.And(nonempty_str(it), z3.Not(Val.is_absent(z3.Select(A, it))), truthy_t(E, z3.Select(A, it))))
    out.append(("every entry of crit is a non-empty string naming a parameter that is present and not empty", el))
    return out, alg

# ------------------------------------------------------------------ JWT claims (C05, C06, C07, C29)
def start_clock(E):
    t0 = z3.Real("t0")
    E.ghost["t0"] = t0
    E.fact(t0 >= 0)
    E.assumed("the system clock does not run backwards during a call and shows a time after 1970")
    return t0

def end_clock(E):
    t1 = E.fresh("t1", R)
    E.fact(t1 >= E.ghost["t0"])
    for r in E.ghost.get("reads", ()): E.fact(t1 >= r)
    return t1

def given(t): return z3.And(z3.Not(Val.is_absent(t)), z3.Not(Val.is_none(t)))

def claim_types(E, c):
    out = []
    for n in ("exp", "iat", "nbf"):
        t = at(E, c, n); out.append((f"{n} is an integer when given", z3.Implies(given(t), Val.is_vint(t))))
    for n in ("iss", "sub", "jti"):
        t = at(E, c, n); out.append((f"{n} is a string when given", z3.Implies(given(t), Val.is_vstr(t))))
    a = at(E, c, "aud")
    l = Val.lid(a)
    out.append(("aud is a string or a list when given", z3.Implies(given(a), z3.Or(Val.is_vstr(a), Val.is_vlist(a)))))
    j = z3.FreshConst(I, "j")
    out.append(("every entry of a list aud is a string", z3.Implies(z3.And(Val.is_vlist(a), 0 <= j, j < l_len(l)), Val.is_vstr(l_item(l, j)))))
    return out

def claim_types_all(E, c):
    """The same as one closed formula (to be assumed)."""
    fs = [f for _, f in claim_types(E, c)[:-1]]
    a = at(E, c, "aud")
    l = E.named(Val.lid(a))
    j = E.bound(I)
    return z3.And(*fs, z3.ForAll([j], z3.Implies(z3.And(Val.is_vlist(a), 0 <= j, j < l_len(l)), Val.is_vstr(l_item(l, j))), patterns=[l_item(l, j)]))

def window(E, c, t0, t1):
    """[(label, formula)]: inside the validity window at some time between t0 and t1."""
    e, n, i = (at(E, c, x) for x in ("exp", "nbf", "iat"))
    R_ = lambda t: z3.ToReal(Val.i(t))
    return [("an expired claims object is never accepted", z3.Implies(given(e), R_(e) > t0)),
            ("a claims object is not accepted before its nbf", z3.Implies(given(n), R_(n) <= t1)),
            ("a claims object issued in the future is not accepted", z3.Implies(given(i), R_(i) <= t1))]

def peq(E, a, b):
    """Python's == of two value terms, as a formula."""
    return zb(E.eq(Sym(a), Sym(b)))

def option_rule(E, c, o, k):
    """[(label, formula)]: what the option stated for claim k requires of the claims."""
    C_, O_ = E.arr(E.dict_of(c)), E.arr(E.dict_of(o))
    ot = z3.Select(O_, k)
    isopt = z3.And(Val.is_vdict(ot), z3.Not(Val.is_absent(k)))
    oa = d_arr(Val.did(ot))
    val = getn(z3.Select(C_, k))
    ess, want, many = (getn(z3.Select(oa, E.term(n))) for n in ("essential", "value", "values"))
    r1 = z3.Implies(z3.And(isopt, truthy_t(E, ess)), z3.Not(Val.is_none(val)))
    r2 = z3.Implies(z3.And(isopt, z3.Not(Val.is_none(want))), peq(E, val, want))
    V, L = Val.lid(many), Val.lid(val)
    j, i = z3.FreshConst(I, "oj"), z3.FreshConst(I, "oi")
    one = z3.Exists([j], z3.And(0 <= j, j < l_len(V), peq(E, val, l_item(V, j))))
    share = z3.And(Val.is_vlist(val), z3.Exists([i], z3.And(0 <= i, i < l_len(L), l_has(V, l_item(L, i)))))
    r3 = z3.Implies(z3.And(isopt, Val.is_vlist(many), l_len(V) > 0), z3.Or(one, share))
    r4 = z3.Implies(z3.And(isopt, truthy_t(E, many)), Val.is_vlist(many))
    return [("an essential claim is present", r1), ("a claim with an expected value equals it", r2), ("a claim with expected values equals or shares one of them", r3)], r4
