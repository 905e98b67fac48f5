from pv.prove import *
import psion.webtools as W
VEngine.literals = frozenset({"basic", "bearer", "Basic", "Bearer", "BASIC", "BEARER", "get", "post", "GET", "POST"})

def header_of(E, h):
    """The Authorization header the functions must consult: lower-case name first, then the canonical one."""
    a, b = models.getn(E.get(h, "authorization")), models.getn(E.get(h, "Authorization"))
    ta = E.truthy(Sym(a))
    return Sym(z3.If(zb(ta), a, b))

def parsed(E, auth, scheme):
    """(formula: well-formed header of that scheme, text after the scheme)"""
    t = auth.t
    s = Val.s(t)
    n = uf("ws_n", S, I)(s)
    head, tail = uf("ws_head", S, S)(s), uf("ws_tail", S, S)(s)
    ok = z3.And(Val.is_vstr(t), z3.Contains(s, z3.StringVal(" ")), n == 2, str_lower(E, head) == sval(scheme))
    return ok, tail

def basic(E):
    h = E.dict_arg("headers")
    auth = header_of(E, h)
    ok, tail = parsed(E, auth, "basic")
    r = E.do(W.get_basic_authorization, h)
    E.ensure("never raises", r.ok)
    if not r.ok: return
    E.ensure("returns a pair", isinstance(r.v, tuple) and len(r.v) == 2)
    if not (isinstance(r.v, tuple) and len(r.v) == 2): return
    raw = sb_dec(tail)
    text = z3.If(is_utf8(raw), decode_t(E, raw), b64u_of(E, raw))
    wf = z3.And(ok, is_ascii(tail), sb_ok(tail), z3.Contains(text, z3.StringVal(":")))
    a, b = r.v
    ta, tb = E.term(a), E.term(b)
    d = decode_t(E, raw)
    pre, post = cut(E, d, sval(":"))
    none = z3.And(Val.is_none(ta), Val.is_none(tb))
    E.fact(z3.Not(z3.Contains(b64u(raw), z3.StringVal(":"))))
    E.cover("none" if a is None else "pair")
    E.ensure("a header that is not a well-formed Basic header gives nothing", z3.Implies(z3.Not(wf), none))
    E.ensure("a well-formed header gives the text before the first colon", z3.Implies(wf, ta == Val.vstr(pre)))
    E.ensure("a well-formed header gives the text after the first colon", z3.Implies(wf, tb == Val.vstr(post)))

def bearer(E):
    h = E.dict_arg("headers")
    auth = header_of(E, h)
    ok, tail = parsed(E, auth, "bearer")
    r = E.do(W.get_bearer_authorization, h)
    E.ensure("never raises", r.ok)
    if not r.ok: return
    t = E.term(r.v)
    E.cover("none" if r.v is None else "token")
    E.ensure("a header that is not a well-formed Bearer header gives nothing", z3.Implies(z3.Not(ok), Val.is_none(t)))
    E.ensure("a well-formed header gives the text after the scheme", z3.Implies(ok, t == Val.vstr(tail)))

def proofs():
    return [Proof("C15.basic", basic, ["none", "pair"], "get_basic_authorization on every headers dictionary", inline=("psion.webtools.get_basic_authorization",)),
            Proof("C15.bearer", bearer, ["none", "token"], "get_bearer_authorization on every headers dictionary")]
