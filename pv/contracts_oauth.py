"""Contracts on the OAuth 2 side of psion."""
from .oauth import *
from .contracts_keysets import again
import psion.webtools as W
from psion.oauth2.authentication import ClientAuthentication

# ---- get_basic_authorization(headers): a function of the Authorization header
basic_ok, basic_id, basic_pw = uf("basic_ok", Val, B), uf("basic_id", Val, S), uf("basic_secret", Val, S)
def auth_header(E, h):
    a, b = getn(E.get(h, "authorization")), getn(E.get(h, "Authorization"))
    return z3.simplify(z3.If(zb(E.truthy(Sym(a))), a, b))

def basic_of(E, t):
    if not E.branch(basic_ok(t)): return (None, None)
    return (E.mks(basic_id(t)), E.mks(basic_pw(t)))

def s_basic(E, a, k):
    t = auth_header(E, a[0])
    if E.checking is not None:
        f = E.verifying_basic
        v, E.verifying = E.verifying, f
        try: return again(E, lambda E: E.call(f, [HDict(layers=[("authorization", E.wrap(t))])], {}))
        finally: E.verifying = v
    return basic_of(E, t)

def p_basic(E, a, k):
    return len(a) == 1 and not k and E.kind(a[0]) == "dict"

# ---- ClientAuthentication()(request, methods): C14
def form_arr(E, r):
    f = E.do(E.getattr(r, "form"))
    if not f.ok: raise Unsupported("the form of a request")
    return E.arr(E.dict_of(f.v))

def field(E, F, n):
    k = Val.vstr(sval(n))
    inst(E, F, k)
    return z3.Select(F, k)

def proofs_of(E, auth, F, may):
    """[(method, formula, client)]: what the request proves."""
    i, p = field(E, F, "client_id"), field(E, F, "client_secret")
    out = []
    o = c_obj(basic_id(auth))
    out.append(("client_secret_basic", z3.And(basic_ok(auth), c_exists(basic_id(auth)), basic_id(auth) != sval(""), basic_pw(auth) != sval(""), c_secret(o) == Val.vstr(basic_pw(auth))), o))
    o = c_obj(Val.s(i))
    out.append(("client_secret_post", z3.And(Val.is_vstr(i), Val.is_vstr(p), c_exists(Val.s(i)), c_secret(o) == p), o))
    out.append(("none", z3.And(Val.is_vstr(i), Val.is_absent(p), c_exists(Val.s(i)), Val.is_none(c_secret(o))), o))
    return [(m, z3.And(may(m), c_method(o) == Val.vstr(sval(m)), f), o) for m, f, o in out]

def may_use(E, ms):
    """Formula of a method being allowed by the methods argument (None: any)."""
    if ms is None: return lambda m: z3.BoolVal(True)
    if isinstance(ms, Sym) and kind_of_term(ms.t) == "list":
        l = z3.simplify(Val.lid(ms.t))
        return lambda m: z3.Or(l_len(l) == 0, l_has(l, Val.vstr(sval(m))))
    items = ms if isinstance(ms, tuple) else ms.items
    return lambda m: z3.BoolVal(not items or m in items)

def proved_by(E, r, ms, o):
    """The request proves the client o with a method of ms."""
    auth, F = auth_header(E, E.getattr(r, "headers")), form_arr(E, r)
    return z3.Or([z3.And(f, o == x) for _, f, x in proofs_of(E, auth, F, may_use(E, ms))])

def s_auth(E, a, k):
    r = a[1]
    ms = a[2] if len(a) > 2 else k.get("methods")
    if E.checking is not None:
        g = E.checking
        E.promise(z3.BoolVal(all(t[0] == "find_client" for t in E.trace)), "storage is only asked for clients")
        for n, A in E.ghost["before"]: E.promise(E.arr(E.dict_of(E.getattr(r, n))) == A, "frame: the request keeps its parameters and headers")
        if not g.ok:
            E.promise(z3.BoolVal(g.raised(OX.InvalidClient)), "a refusal is invalid_client")
            raise PyRaise(g.exc)
        c, kept = g.v, E.getattr(r, "client")
        if not (isinstance(c, IObj) and c.kind == "client" and isinstance(kept, IObj) and kept.kind == "client"): raise PyRaise(HObj(RuntimeError))
        o = c.ghost["oid"]
        E.promise(kept.ghost["oid"] == o, "the request carries the client")
        E.promise(proved_by(E, r, ms, o), "the request proves the client it is authenticated as")
        return c
    fault(E, "find_client", a[0])
    if E.choose(2):
        x = HObj(OX.InvalidClient)
        x.attrs.update(args=(), headers=HDict(), description=None, uri=None, state=None)
        raise PyRaise(x)
    o = E.fresh("client", I)
    E.assume(proved_by(E, r, ms, o))
    c = client(E, o)
    E.setattr(r, "client", c)
    E.trace.append(("authenticated", [c, ms], None))
    return c

def p_auth(E, a, k):
    if not (2 <= len(a) + len(k) <= 3) or set(k) - {"methods"} or len(a) < 2: return False
    ms = a[2] if len(a) > 2 else k.get("methods")
    if not (isinstance(a[0], HObj) and isinstance(a[1], HObj) and issubclass(a[1].cls, Request)): return False
    if ms is None or isinstance(ms, Sym) and kind_of_term(ms.t) == "list": return True
    return isinstance(ms, (HList, tuple)) and getattr(ms, "coll", None) is None and all(isinstance(x, str) for x in (ms if isinstance(ms, tuple) else ms.items))

def auth_args(body, given):
    def mk(E):
        r = request(E, body=body)
        a = E.do(ClientAuthentication, E.getattr(new_adapter(), "find_client"))
        if not a.ok: raise PathEnd
        ms = None
        if given:
            l = z3.Int("in_methods")
            ms = strlist(E, l)
        E.ghost["before"] = [(n, E.arr(E.dict_of(E.getattr(r, n)))) for n in ("data", "headers", "query")]
        return [a.v, r, ms], {}
    return mk

def same_client(E, a, b):
    return isinstance(a, IObj) and isinstance(b, IObj) and a.kind == b.kind == "client" and a.ghost["oid"] == b.ghost["oid"]

def build():
    out = []
    f = C.find(W, "get_basic_authorization")
    VEngine.verifying_basic = staticmethod(f) if f else None
    if f is not None:
        out.append(Contract("psion.webtools.get_basic_authorization", f, s_basic, lambda E: ([E.dict_arg("headers")], {}), p_basic))
    f = C.find(ClientAuthentication, "__call__")
    if inspect.iscoroutinefunction(f):
        both = ("returns", "raises")
        out.append(Contract("psion.oauth2.authentication.ClientAuthentication.__call__", f, s_auth, None, p_auth, same=same_client, coro=True,
                            shards=[(f"{'body' if b else 'nobody'}.{'chosen' if g else 'all'}", auth_args(b, g), both) for b in ("bytes", None) for g in (False, True)]))
    return out
