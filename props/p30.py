from pv.prove import *
from psion.oauth2.models import Request
VEngine.literals = VEngine.literals | {"get", "post", "GET", "POST"}

def body_arg(E):
    i = E.choose(3)
    return [None, lambda: E.bytes_arg("body"), lambda: E.str_arg("body")][i]() if i else None

def body_text(E, b):
    """The text form of a body (bytes that are not UTF-8 are taken in base64url)."""
    if b is None: return z3.StringVal("")
    t = E.str_t(b)
    if E.kind(b) == "str": return t
    return decode_t(E, t) if E.branch(valid_utf8(E, t)) else b64u_of(E, t)

def pairs(E, s):
    """Parameters of a form-encoded text, as an array."""
    return E.arr(E.dict_of(qsl(E, s).ghost["dict"]))

def make(E, user=None):
    m, url = E.str_arg("method"), E.str_arg("url")
    h = HDict(base=E.arr(E.dict_of(E.dict_arg("headers"))))
    b = body_arg(E)
    return m, url, h, b, E.do(Request, m, url, h, b, user)

def methods(E):
    m, url, h, b, r = make(E)
    low = str_lower(E, E.str_t(m))
    known = z3.Or(low == sval("get"), low == sval("post"))
    E.cover("made" if r.ok else "refused")
    E.ensure("refused exactly when the method is neither GET nor POST", Iff(r.ok, known))

def faithful(E):
    user = IObj("user")
    m, url, h, b, r = make(E, user)
    if not r.ok: return
    h0 = E.arr(h)
    E.cover("made")
    o = r.v
    s = E.str_t(url)
    Q, F = pairs(E, url_q(s)), pairs(E, z3.simplify(body_text(E, b)))
    q, d = E.getattr(o, "query"), E.getattr(o, "data")
    f = E.do(E.getattr(o, "form"))
    E.ensure("the form can be read", f.ok)
    if not f.ok: return
    E.ensure("the query holds the parameters of the URL", E.same_dict(q, HDict(base=Q)))
    E.ensure("the form holds the parameters of the body only", E.same_dict(f.v, HDict(base=F)))
    E.ensure("the parameters are the query overridden by the form", E.same_dict(d, HDict(base=merge_arr(E, Q, F))))
    E.ensure("method, URL and user are kept", And(E.same(E.getattr(o, "method"), m), E.same(E.getattr(o, "url"), url), E.getattr(o, "user") is user))
    E.ensure("the given headers are not changed", E.arr(h) == h0)
    hd = E.getattr(o, "headers")
    E.ensure("the headers are a dictionary of their own", hd is not h)
    H, G = h0, E.arr(E.dict_of(hd))
    k = E.any_key()
    E.fact(z3.Or(Val.is_absent(z3.Select(H, k)), Val.is_vstr(k)))
    low = Val.vstr(str_lower(E, Val.s(k)))
    E.key_facts(low)
    E.ensure("every header is found under its lower-case name", z3.Implies(z3.Not(Val.is_absent(z3.Select(H, k))), z3.Not(Val.is_absent(z3.Select(G, low)))))
    y = E.any_key()
    j = z3.Const("j!", S)
    E.ensure("every header was given under that name in some case", z3.Implies(z3.Not(Val.is_absent(z3.Select(G, y))), z3.Exists([j], z3.And(z3.Select(H, Val.vstr(j)) == z3.Select(G, y), y == Val.vstr(uf("lower", S, S)(j))))))
    # changing the parameters of the request changes neither its query nor its form
    q0 = E.arr(E.dict_of(q))
    E.do(E.getattr(d, "pop"), "grant_type", None)
    E.setitem(d, "x", "y")
    f2 = E.do(E.getattr(o, "form"))
    E.ensure("changing the parameters changes neither query nor form", And(E.arr(E.dict_of(q)) == q0, f2.ok, E.same_dict(f2.v, HDict(base=F)) if f2.ok else False))
    E.ensure("no shared state is written", not E.globmut)

def independent(E):
    m, url, h, b, r = make(E)
    if not r.ok: return
    E.setitem(E.getattr(r.v, "data"), "x", "y")
    E.setitem(E.getattr(r.v, "headers"), "x", "y")
    url2 = E.str_arg("url2")
    r2 = E.do(Request, "POST", url2, HDict(), None)
    E.ensure("a second request can be made", r2.ok)
    if not r2.ok: return
    E.cover("two")
    Q = pairs(E, url_q(E.str_t(url2)))
    E.ensure("the parameters of a request do not depend on another", E.same_dict(E.getattr(r2.v, "data"), HDict(base=Q)))
    E.ensure("the headers of a request do not depend on another", E.same_dict(E.getattr(r2.v, "headers"), HDict()))
    E.ensure("nothing is shared between requests", And(*[E.getattr(r.v, n) is not E.getattr(r2.v, n) for n in ("data", "headers", "query")]))
    E.ensure("no shared state is written", not E.globmut)

def proofs():
    return [Proof("C30.method", methods, ["made", "refused"]), Proof("C30.faithful", faithful, ["made"], "parameters, form, headers of every request"), Proof("C30.independent", independent, ["two"])]
