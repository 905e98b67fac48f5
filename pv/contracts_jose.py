"""Contracts on the JOSE layer of psion."""
from .verify import *
from .libmodels import *
from .models import *
from .specs import *
from . import contracts as C
from .heap import Lazy
import psion.jose.exceptions as X
import psion.jose.jws as JS
import psion.jose.jwt as JT
import psion.jose.jwk as JK
import psion.jose.jwa.jws as AJS
import psion.jose.jwa.jwk as AJK


# ---- JsonWebTokenClaims._validate_default_claims(self, claims)
def now_read(E):
    if E.checking is not None:
        r = E.ghost.get("reads")
        return r[-1] if r else tick(E)
    return tick(E)

def default_ok(E, c, t):
    """Types and validity window at time t, as one formula."""
    n = z3.ToReal(z3.ToInt(t))
    e, b, i = (at(E, c, x) for x in ("exp", "nbf", "iat"))
    R_ = lambda x: z3.ToReal(Val.i(x))
    return z3.And(claim_types_all(E, c), z3.Implies(given(e), R_(e) > n), z3.Implies(given(b), R_(b) <= n), z3.Implies(given(i), R_(i) <= n))

def s_default(E, a, k):
    t = now_read(E)
    E.may_raise([X.InvalidJWTClaim, X.ExpiredToken, X.NotYetValidToken], Not(default_ok(E, a[1], t)))
    return None
def p_default(E, a, k):
    return len(a) == 2 and not k and E.kind(a[1]) == "dict"
def a_default(E):
    start_clock(E)
    o = HObj(JT.JsonWebTokenClaims); o.d = HDict()
    o.attrs["options"] = HDict()
    return [o, E.dict_arg("claims")], {}


# ---- JsonWebTokenClaims._validate_claims(self, claims): the options
def options_ok(E, c, o):
    k = E.bound(Val)
    rs, r4 = option_rule(E, c, o, k)
    return z3.ForAll([k], z3.And(*[f for _, f in rs], r4), patterns=[z3.Select(E.arr(E.dict_of(o)), k)])

def s_options(E, a, k):
    E.may_raise([X.InvalidJWTClaim], Not(options_ok(E, a[1], E.getattr(a[0], "options"))))
    return None
def p_options(E, a, k):
    return len(a) == 2 and not k and E.kind(a[1]) == "dict" and isinstance(a[0], HObj) and isinstance(a[0].attrs.get("options"), Sym) and E.kind(a[0].attrs["options"]) == "dict"
def a_options(E):
    o = HObj(JT.JsonWebTokenClaims); o.d = HDict()
    o.attrs["options"] = E.dict_arg("options")
    return [o, E.dict_arg("claims")], {}


# ---- JsonWebSignatureHeader(header)
def header_ok(E, h):
    fs = [f for _, f in header_rules(E, h)[0][:-1]]
    crit = at(E, h, "crit")
    l = E.named(Val.lid(crit))
    A = E.named(E.arr(E.dict_of(h)))
    j = E.bound(I)
    it = l_item(l, j)
    x = z3.Select(A, it)
    q = z3.ForAll([j], z3.Implies(z3.And(Val.is_vlist(crit), 0 <= j, j < l_len(l)), z3.And(nonempty_str(it), z3.Not(Val.is_absent(x)), truthy_t(E, x))), patterns=[l_item(l, j)])
    return z3.And(*fs, q)

def s_header(E, a, k):
    h = a[0]
    if not isinstance(h, Sym): h = Sym(E.term(h))
    kd = E.kind(h)
    errs = [X.InvalidJWSHeader, X.UnsupportedAlgorithm, TypeError]
    if kd is None and not E.branch(Val.is_vdict(h.t)) or kd not in (None, "dict"): E.raise_(X.InvalidJWSHeader)
    some = d_some(Val.did(h.t))
    if not E.branch(some): E.raise_(X.InvalidJWSHeader)
    E.may_raise(errs, Not(header_ok(E, h)))
    o = HObj(JS.JsonWebSignatureHeader)
    o.d = HDict(base=filt_arr(E, E.arr(E.dict_of(h))))
    alg = at(E, h, "alg")
    def which(E):
        i = E.pick(alg, [E.term(n) for n in ALGS])
        if i is None: E.impossible()
        return getattr(AJS, ALGS[i])
    o.attrs["algorithm"] = which(E) if E.checking is not None else Lazy(which)
    return o
def p_header(E, a, k):
    return len(a) == 1 and not k and (isinstance(a[0], Sym) or isinstance(a[0], (HDict, HObj)) and E.kind(a[0]) == "dict" and not E.dict_of(a[0]).concrete_keys())
def same_header(E, g, w):
    return And(isinstance(g, HObj) and g.cls is w.cls and g.d is not None and E.getattr(g, "algorithm") is w.attrs["algorithm"], E.same_dict(g, w) if isinstance(g, HObj) and g.d is not None else False)


# ---- _validate_key(key, header): the restrictions a key declares
def restrictions(E, kd, h):
    """[(label, formula)] of C03 over a key's attributes and a header."""
    alg, kid, use, ops = (getn(at(E, kd, n)) for n in ("alg", "kid", "use", "key_ops"))
    halg, hkid = getn(at(E, h, "alg")), getn(at(E, h, "kid"))
    op = at(E, kd, "key_ops")
    L, D = E.named(Val.lid(op)), E.named(d_arr(Val.did(op)))
    j, q = E.bound(I), E.bound(Val)
    isop = lambda x: z3.Or(x == E.term("sign"), x == E.term("verify"))
    lst = z3.And(Val.is_vlist(op), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < l_len(L)), isop(l_item(L, j))), patterns=[l_item(L, j)]))
    dct = z3.And(Val.is_vdict(op), z3.ForAll([q], z3.Or(Val.is_absent(q), z3.Not(hashable_t(q)), Val.is_absent(z3.Select(D, q)), isop(q)), patterns=[z3.Select(D, q)]))
    return [("the key's alg is the token's algorithm", z3.Implies(truthy_t(E, alg), peq(E, alg, halg))),
            ("the key's kid is the one in the header", z3.Implies(truthy_t(E, hkid), peq(E, kid, hkid))),
            ("the key's use is sig", z3.Implies(truthy_t(E, use), use == E.term("sig"))),
            ("the key's operations are sign and verify only", z3.Implies(truthy_t(E, ops), z3.Or(lst, dct)))]

def key_obj(E, v): return isinstance(v, HObj) and v.cls is JK.JsonWebKey and E.kind(v.attrs.get("data")) == "dict"
def s_vkey(E, a, k):
    f = z3.And(*[f for _, f in restrictions(E, a[0].attrs["data"], a[1])])
    E.may_raise([X.InvalidKey, TypeError], Not(f))
    return None
def p_vkey(E, a, k):
    return len(a) == 2 and not k and key_obj(E, a[0]) and E.kind(a[1]) == "dict"
def a_vkey(E):
    o = HObj(JK.JsonWebKey)
    o.attrs["data"] = E.dict_arg("key")
    return [o, E.dict_arg("header")], {}


def build():
    out = []
    def add(name, t, spec, args, pre=None, **kw):
        if t is not None: out.append(Contract(name, t, spec, args, pre, **kw))
    add("psion.jose.jwt.JsonWebTokenClaims._validate_default_claims", C.find(JT, "JsonWebTokenClaims", "_validate_default_claims"), s_default, a_default, p_default, covers=("returns", "raises"))
    add("psion.jose.jwt.JsonWebTokenClaims._validate_claims", C.find(JT, "JsonWebTokenClaims", "_validate_claims"), s_options, a_options, p_options, covers=("returns", "raises"))
    add("psion.jose.jws.JsonWebSignatureHeader", C.find(JS, "JsonWebSignatureHeader"), s_header, lambda E: ([E.arg("header")], {}), p_header, covers=("returns", "raises"), same=same_header, call=lambda E, a, k: E.construct(JS.JsonWebSignatureHeader, a, k), budget=150)
    add("psion.jose.jws._validate_key", C.find(JS, "_validate_key"), s_vkey, a_vkey, p_vkey, covers=("returns", "raises"))
    return out
