"""The application around psion: storage, clients, users, codes and refresh tokens known only through psion's documented
interfaces (BaseAdapter and the mixins). Getters are pure functions of the object; every storage call is logged in order."""
import inspect
from .verify import *
from .libmodels import *
from .models import *
from .specs import *
from .specs_jose import *
from . import contracts as C
from psion.oauth2.adapter import BaseAdapter
import psion.oauth2.exceptions as OX
from psion.oauth2.mixins import *
from psion.oauth2.models import *
from psion.oauth2.providers import StarletteProvider as Provider
from psion.oauth2.grants import *

c_exists, c_obj = uf("c_exists", S, B), uf("c_obj", S, I)
c_id = uf("c_id", I, S)
c_secret, c_method = uf("c_secret", I, Val), uf("c_method", I, Val)
c_grants, c_rtypes, c_uris = uf("c_grants", I, I), uf("c_rtypes", I, I), uf("c_uris", I, I)
c_default, c_allowed, c_may = uf("c_default", I, I), uf("c_allowed", I, I, I), uf("c_may", I, Val, B)
u_exists, u_obj, u_id = uf("u_exists", Val, B), uf("u_obj", Val, I), uf("u_id", I, Val)
k_exists, k_obj = uf("k_exists", S, B), uf("k_obj", S, I)                      # authorization codes
k_client, k_user, k_uri = uf("k_client", I, Val), uf("k_user", I, Val), uf("k_uri", I, Val)
k_chal, k_meth, k_nonce, k_time = uf("k_challenge", I, Val), uf("k_method", I, Val), uf("k_nonce", I, Val), uf("k_auth_time", I, Val)
k_scopes, k_exp = uf("k_scopes", I, I), uf("k_expiration", I, z3.RealSort())
r_exists, r_obj, r_client, r_user, r_scopes, r_exp = uf("r_exists", S, B), uf("r_obj", S, I), uf("r_client", I, Val), uf("r_user", I, Val), uf("r_scopes", I, I), uf("r_expiration", I, z3.RealSort())

def obj(kind, oid, cls):
    return IObj(kind, oid=oid, term=Val.vobj(oid), isinstance=lambda c: issubclass(cls, c))

def strlist(E, l):
    """A list of non-empty words."""
    E.list_kinds[l.get_id()] = ("str",)
    q = E.bound(Val)
    E.fact(z3.And(l_len(l) >= 0, z3.ForAll([q], z3.Implies(l_has(l, q), z3.And(Val.is_vstr(q), Val.s(q) != z3.StringVal(""))), patterns=[l_has(l, q)])))
    return Sym(Val.vlist(l))

def text_or_none(E, t):
    E.fact(z3.Or(Val.is_none(t), Val.is_vstr(t)))
    return E.wrap(t)

def client(E, oid): return obj("client", oid, ClientMixin)
def user(E, oid): return obj("user", oid, UserMixin)
def code(E, oid): return obj("code", oid, AuthorizationCodeMixin)
def refresh(E, oid): return obj("refresh", oid, RefreshTokenMixin)

def getter(kind, cls, table):
    for name, f in table.items():
        def g(E, o, a, k, f=f, name=name):
            bound = inspect.signature(getattr(cls, name)).bind(o, *a, **k).arguments
            return f(E, o.ghost["oid"], *list(bound.values())[1:])
        IFACE[(kind, name)] = g

def words(f): return lambda E, o: strlist(E, f(o))
def val(f): return lambda E, o: text_or_none(E, f(o))

def allowed(E, o, scopes):
    """The scopes of the list that the client may use, in some order; its default without a list."""
    if scopes is None: return strlist(E, c_default(o))
    t = E.term(scopes)
    if kind_of_term(t) is None and E.branch(Val.is_none(t)): return strlist(E, c_default(o))
    l = z3.simplify(Val.lid(t))
    r = c_allowed(o, l)
    q = E.bound(Val)
    E.fact(z3.ForAll([q], l_has(r, q) == z3.And(l_has(l, q), c_may(o, q)), patterns=[l_has(r, q)]))
    E.assumed("get_allowed_scopes gives those of the requested scopes that the client may use")
    return strlist(E, r)

getter("client", ClientMixin, dict(get_client_id=lambda E, o: E.mks(c_id(o)), get_client_secret=val(c_secret), get_token_endpoint_auth_method=val(c_method),
       get_grant_types=words(c_grants), get_response_types=words(c_rtypes), get_redirect_uris=words(c_uris), get_allowed_scopes=allowed))
getter("user", UserMixin, dict(get_user_id=val(u_id)))
getter("code", AuthorizationCodeMixin, dict(get_client_id=val(k_client), get_user_id=val(k_user), get_redirect_uri=val(k_uri), get_scopes=words(k_scopes), get_code_challenge=val(k_chal),
       get_code_challenge_method=val(k_meth), get_nonce=val(k_nonce), get_auth_time=lambda E, o: E.wrap(k_time(o)), get_expiration=lambda E, o: mk_dt(k_exp(o), None)))
getter("refresh", RefreshTokenMixin, dict(get_client_id=val(r_client), get_user_id=val(r_user), get_scopes=words(r_scopes), get_expiration=lambda E, o: mk_dt(r_exp(o), None)))

# ---- storage
def stored(E, name, args):
    """The answer of the storage."""
    if name == "find_client":
        s = E.str_t(args[0])
        if not E.branch(c_exists(s)): return None
        E.fact(c_id(c_obj(s)) == s)
        return client(E, c_obj(s))
    if name == "find_user":
        t = E.term(args[0])
        return user(E, u_obj(t)) if E.branch(u_exists(t)) else None
    if name == "get_authorization_code":
        s = E.str_t(args[0])
        return code(E, k_obj(s)) if E.branch(k_exists(s)) else None
    if name == "get_refresh_token":
        s = E.str_t(args[0])
        return refresh(E, r_obj(s)) if E.branch(r_exists(s)) else None
    if name in ("create_access_token", "create_refresh_token"):
        t = E.fresh(name, S)
        E.fact(t != z3.StringVal(""))
        return E.mks(t)
    if name == "get_userinfo":
        d = E.fresh("userinfo", I)
        mark_strkeys(E, d_arr(d))
        E.ghost.setdefault("userinfo", []).append(d)
        w = E.ghost.get("userinfo_lacks", ())
        if w:
            E.assumed("the user's info does not redefine the protocol claims of an ID token")
            E.without[z3.simplify(d_arr(d)).get_id()] = (d_arr(d), w)
            for n in w: E.fact(Val.is_absent(z3.Select(d_arr(d), E.term(n))))
        return HDict(base=d_arr(d))
    if name == "get_key_info": return E.ghost["key_info"](E)
    return None

def record(E, name, args):
    """Arguments as they are at the call."""
    return [HDict(v.base, v.layers) if isinstance(v, HDict) else HDict(v.d.base, v.d.layers) if isinstance(v, HObj) and v.d is not None else HList(v.items, v.coll) if isinstance(v, HList) else v for v in args]

def fault(E, name, o):
    """The storage may fail."""
    fs = E.ghost.get("faults")
    if fs:
        i = E.choose(len(fs) + 1)
        if i:
            x = HObj(fs[i - 1]); x.attrs.update(args=(), headers=HDict(), description=None, uri=None, state=None)
            E.trace.append(("fault", [name], o))
            raise PyRaise(x)

def adapter_attr(E, o, name):
    f = BaseAdapter.__dict__.get(name)
    if f is None: return MISSING
    def call(E, a, k):
        b = inspect.signature(f).bind(o, *a, **k)
        b.apply_defaults()
        args = list(b.arguments.values())[1:]
        def thunk():
            E.trace.append((name, record(E, name, args), o))
            fault(E, name, o)
            r = stored(E, name, args)
            E.trace[-1] = E.trace[-1] + (r,)
            return r
        return Coro(thunk, name)
    return Model(name, call)
IFACE[("adapter", "*")] = adapter_attr
IFACE[("adaptertype", "__call__")] = lambda E, o, a, k: o.ghost["make"]

def new_adapter(): return IObj("adapter", isinstance=lambda c: issubclass(BaseAdapter, c))

def calls(E, *names):
    """The storage calls of the path, in order: (name, arguments, adapter[, answer])."""
    return [t for t in E.trace if not names or t[0] in names]

# ---- a server
def server(E, grants=None, **kw):
    ad = new_adapter()
    sc = strlist(E, z3.Int("server_scopes"))
    eu = E.str_arg("error_url")
    E.fact(url_clean(E.str_t(eu)))
    p = E.do(Provider, issuer=kw.get("issuer") or E.str_arg("issuer"), adapter=IObj("adaptertype", make=ad), grants=HList(grants if grants is not None else [AuthorizationCodeGrant, RefreshTokenGrant, ClientCredentialsGrant]),
             scopes=sc, keyset=kw.get("keyset"), error_url=eu, token_lifespan=E.int_arg("token_lifespan"), id_token_lifespan=E.int_arg("id_token_lifespan"))
    if not p.ok:
        E.ensure("a server can be created", False)
        raise PathEnd
    return p.v, ad

def request(E, u=None, body="bytes"):
    """Any request."""
    m, url = E.str_arg("method"), E.str_arg("url")
    h = E.dict_arg("headers")
    b = E.bytes_arg("body") if body == "bytes" else None
    r = E.do(Request, m, url, h, b, u)
    if not r.ok: raise PathEnd
    return r.v

def word(x): return z3.StringVal(x)

# ---- answers
class Answer:
    """A response: status, headers, and the content of a JSON body as a dictionary (None when it is none)."""
    def __init__(self, status, headers, body): self.status, self.headers, self.body = status, headers, body

def answer(E, out):
    """The response of a call, or None when there is none."""
    if not out.ok or not (isinstance(out.v, HObj) and issubclass(out.v.cls, Response)): return None
    st, h, b = (E.getattr(out.v, n) for n in ("status_code", "headers", "body"))
    d = None
    if isinstance(b, bytes):
        try: d = E.from_native(json.loads(b))
        except ValueError: return None
    elif E.kind(b) == "bytes":
        t = E.str_t(b)
        x = decode_t(E, t)
        if z3.is_app(x) and x.decl().name() in ("jdump", "jdump_ascii"): d = Sym(x.arg(0))
        else: return None
    if d is not None and E.kind(d) == "dict":
        d = E.dict_of(d)
        if d.base is not None and z3.is_app(d.base) and d.base.decl().name() == "d_arr" and z3.is_app(d.base.arg(0)) and d.base.arg(0).decl().name() == "d_mk":
            d = HDict(base=d.base.arg(0).arg(0))
    return Answer(st, h, d)

def is_status(E, a, n): return a.status == n if isinstance(a.status, int) else E.same(a.status, n)
def member(E, a, k):
    """Entry of the JSON body."""
    return at(E, a.body, k) if isinstance(a.body, HDict) else Val.absent

# ---- grants the application may define
def any_grant(E, n, errors=()):
    """The type of an arbitrary grant: any name, any methods, answers with any dictionary or raises an OAuth 2 error with any content."""
    name = E.str_arg(f"grant{n}")
    l = z3.Int(f"in_methods{n}")
    ms = None if n == 0 else strlist(E, l)
    def make(E, a, k):
        return IObj("grant", n=n, name=name, methods=ms, attrs={"__grant_type__": name, "__response_type__": None, "__authentication_methods__": ms, "adapter": a[0], "config": a[1]}, errors=errors)
    return IObj("granttype", make=make)
IFACE[("granttype", "__call__")] = lambda E, o, a, k: o.ghost["make"](E, a, k)

def grant_token(E, o, a, k):
    data, cl = inspect.signature(BaseGrant.token).bind(o, *a, **k).args[1:]
    def thunk():
        errs = o.ghost["errors"]
        i = E.choose(len(errs) + 1) if errs else 0
        E.trace.append(("grant", [o, data, cl], None, i))
        if i:
            kw = {"description": E.str_arg("description"), "headers": E.ghost.get("grant_headers")}
            if errs[i - 1] is OX.FatalError: kw["error"] = E.str_arg("error_code")
            x = E.do(errs[i - 1], **kw)
            if not x.ok: raise PathEnd
            raise PyRaise(x.v)
        d = E.fresh("granted", I)
        mark_strkeys(E, d_arr(d))
        E.ghost["granted"] = d
        return HDict(base=d_arr(d))
    return Coro(thunk, "token")
IFACE[("grant", "token")] = grant_token

# ---- scopes as lists of words
def same_words(E, v, l):
    """The list v has exactly the words of the list l."""
    if not (isinstance(v, HList) or isinstance(v, Sym) and E.kind(v) == "list" or isinstance(v, tuple)): return False
    if isinstance(v, Sym) and z3.simplify(Val.lid(v.t)).eq(z3.simplify(l)): return True
    q = z3.FreshConst(Val, "word")
    return z3.And(zb(contains(E, v, Sym(q))) == l_has(l, q))

def joined(E, l):
    """The words of the list as a scope parameter."""
    return E.term(E.call(E.getattr(" ", "join"), [Sym(Val.vlist(l))], {}))

def is_obj(v, kind): return isinstance(v, IObj) and v.kind == kind
def same_obj(v, kind, oid): return v.ghost["oid"] == oid if is_obj(v, kind) else False

def the_grant(E, cls, grants=None, **kw):
    """A server, and its grant of that class."""
    p, ad = server(E, grants or [cls], **kw)
    g = E.getattr(p, "grants")
    g = next(x for x in g.items if isinstance(x, HObj) and issubclass(x.cls, cls))
    return p, ad, g

def any_client(E): return client(E, z3.Int("in_client"))
def params_arg(E, name="data"):
    """Parameters of a request: text by name."""
    d = z3.Int("in_" + name)
    A = d_arr(d)
    mark_strkeys(E, A)
    def ins(kt):
        x = z3.Select(A, kt)
        E.fact(z3.Or(Val.is_absent(x), z3.And(Val.is_vstr(x), Val.s(x) != z3.StringVal(""), Val.is_vstr(kt))))
    E.insts[A.get_id()] = (A, ins)
    E.textvals[A.get_id()] = A
    E.inputs[name] = Sym(Val.vdict(d))
    return HDict(base=A)

# ---- the authorization endpoint
def signed_in(E):
    """No user, or some user."""
    return user(E, z3.Int("in_user")) if E.choose(2) else None

def clean_uris(E, o, uri=None):
    q = E.bound(S)
    E.assumed("registered redirect URIs and the error page are written in URI characters (RFC 3986) and have no fragment")
    E.fact(z3.ForAll([q], z3.Implies(l_has(c_uris(o), Val.vstr(q)), z3.And(url_clean(q), z3.Not(z3.Contains(q, z3.StringVal("#"))))), patterns=[l_has(c_uris(o), Val.vstr(q))]))
    if uri is not None: E.fact(z3.Implies(z3.And(Val.is_vstr(uri), l_has(c_uris(o), uri)), z3.And(url_clean(Val.s(uri)), z3.Not(z3.Contains(Val.s(uri), z3.StringVal("#"))))))

def location(E, out):
    """The target of a redirection, as text; None when the outcome is none."""
    if not out.ok or not (isinstance(out.v, HObj) and issubclass(out.v.cls, RedirectResponse)): return None
    t = at(E, E.getattr(out.v, "headers"), "Location")
    return Val.s(t) if kind_of_term(t) == "str" else None

def parts(t):
    """The pieces of a concatenation."""
    t = z3.simplify(t)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT: return [q for c in t.children() for q in parts(c)]
    return [t]

def targets(E, loc, base):
    """[(formula, separator, parameters)]: the location is the base followed by these parameters only."""
    out, ps, b = [], parts(loc), parts(base)
    for did, d in E.ghost.get("qenc", ()):
        for sep in ("?", "&"):
            tail = [sval(sep), z3.simplify(qenc(did))]
            if len(ps) > 2 and all(x.eq(y) for x, y in zip(ps[-2:], tail)):
                head = ps[:-2]
                f = cat(*head) == base if len(head) > 1 else head[0] == base
                plain = [x.arg(0) if z3.is_app(x) and x.decl().name() == "qp" else x for x in head]
                if [x.get_id() for h in plain for x in parts(h)] == [x.get_id() for x in b]: return [(f, sep, d)]
            else: f = z3.simplify(loc) == cat(base, sval(sep), qenc(did))
            out.append((f, sep, d))
    return out

def written(ts):
    """The location is written as one of these targets: the base (quoted, perhaps) and one set of parameters."""
    return len(ts) == 1
