from pv.prove import *
import psion.webtools as W
import psion.oauth2.exceptions as X
from psion.oauth2.models import JSONResponse, RedirectResponse
VEngine.literals = VEngine.literals | {"content-type", "Content-Type", "location", "Location"}
URLCHARS = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~:/?#[]@!$&'()*+,;=%")

def arbitrary_dict(E, name):
    """A mutable dictionary with arbitrary content, of which one entry is itself a mutable dictionary and one a list."""
    d = E.dict_arg(name)
    return HDict(base=E.arr(E.dict_of(d)))

def no_null(E, d):
    k = E.any_key()
    h = E.dict_of(d)
    models.inst(E, E.arr(h), k)
    if h.base is not None: models.inst(E, h.base, k)
    return z3.Not(Val.is_none(z3.Select(E.arr(h), k)))

def full(E):
    src = arbitrary_dict(E, "data")
    before = E.arr(src)
    r = E.do(W.FullDict, src)
    E.ensure("construction succeeds", r.ok)
    if not r.ok: return
    E.ensure("no null entry after construction", no_null(E, r.v))
    E.ensure("every other entry is kept and nothing is added", E.same_dict(r.v, HDict(base=filt_arr(E, before))))
    k, v = E.str_arg("key"), E.arg("value")
    held = E.arr(E.dict_of(r.v))
    s = E.do(lambda: None) if False else None
    try: E.setitem(r.v, k, v)
    except PyRaise as e: return E.ensure("assignment succeeds", False)
    E.cover("assigned")
    E.ensure("no null entry after assignment", no_null(E, r.v))
    want = z3.If(Val.is_none(v.t), held, z3.Store(held, k.t, v.t))
    E.ensure("assignment sets that entry only", E.same_dict(r.v, HDict(base=want)))
    E.ensure("the source dictionary is not changed", E.arr(src).eq(before) or E.arr(src) == before)

def nested(E):
    inner, lst = HDict(layers=[("a", E.arg("a"))]), HList([E.arg("b")])
    src = HDict(layers=[("d", inner), ("l", lst), ("n", None), ("v", E.arg("v"))])
    r = E.do(W.FullDict, src)
    E.ensure("construction succeeds", r.ok)
    if not r.ok: return
    E.cover("built")
    for name, o in (("d", inner), ("l", lst)):
        x = E.do(lambda: None) if False else E.getitem(r.v, name)
        E.ensure(f"a nested container is not shared with the source", x is not o)
        E.ensure("a nested container is kept", E.same(x, o))

def keywords(E):
    d, kw = E.dict_arg("data"), E.dict_arg("keywords")
    try: r = E.call(W.FullDict, [d], SymKw(E.dict_of(kw), {}))
    except PyRaise: return E.ensure("construction succeeds", False)
    E.cover("built")
    E.ensure("no null entry after construction", no_null(E, r))
    m = merge_arr(E, E.arr(E.dict_of(d)), E.arr(E.dict_of(kw)))
    E.ensure("keywords override, every non-null entry is kept", E.same_dict(r, HDict(base=filt_arr(E, m))))

def header_spec(E, headers, extra):
    """Headers: the given ones over the default content type, without nulls."""
    A = EMPTY_ARR
    for k, v in extra: A = z3.Store(A, E.term(k), E.term(v))
    if headers is not None: A = merge_arr(E, A, E.arr(E.dict_of(headers)))
    return filt_arr(E, A)

def jsonresp(E):
    h = [None, E.dict_arg("headers")][E.choose(2)]
    status = E.int_arg("status")
    body = E.arg("body")
    E.assume(z3.Not(z3.Or(Val.is_vbytes(body.t), Val.is_vobj(body.t))))
    r = E.do(JSONResponse, status, h, body)
    E.ensure("a response is made", r.ok)
    if not r.ok: return
    E.cover("made")
    E.ensure("the status is kept", E.same(E.getattr(r.v, "status_code"), status))
    b = E.getattr(r.v, "body")
    E.ensure("the body is bytes", E.kind(b) == "bytes")
    if E.kind(b) == "bytes":
        t = E.str_t(b)
        E.ensure("the body is UTF-8", valid_utf8(E, t))
        txt = decode_t(E, t)
        E.ensure("the body is the JSON of the content", z3.And(jvalid(txt), jload(txt) == body.t))
    E.ensure("the headers are the given ones with content type application/json", E.same_dict(E.getattr(r.v, "headers"), HDict(base=header_spec(E, h, [("Content-Type", "application/json")]))))

def loc_ok(E, v):
    """The text is made of URL characters only."""
    if E.kind(v) != "str": return False
    for p in parts(z3.simplify(E.str_t(v))):
        nm = p.decl().name() if z3.is_app(p) else ""
        if z3.is_string_value(p):
            if set(z3str(p)) - URLCHARS: return False
        elif nm == "qp":
            if not z3.is_string_value(p.arg(1)) or set(z3str(p.arg(1))) - URLCHARS: return False
        elif nm not in ("qenc", "b64u"): return False
    return True

def redirect(E):
    h = [None, E.dict_arg("headers")][E.choose(2)]
    url = E.str_arg("url")
    r = E.do(RedirectResponse, url) if h is None else E.do(RedirectResponse, url, headers=h)
    E.ensure("a response is made", r.ok)
    if not r.ok: return
    E.cover("made")
    hd = E.getattr(r.v, "headers")
    loc = E.wrap(at(E, hd, "Location"))
    E.ensure("the Location has URL characters only", loc_ok(E, loc))
    E.ensure("a URL made of URL characters is not changed", z3.Implies(url_clean(E.str_t(url)), E.term(loc) == url.t))
    E.ensure("the status is a redirection", And(isinstance(E.getattr(r.v, "status_code"), int), E.getattr(r.v, "status_code") in range(300, 400)))
    E.ensure("no null header", no_null(E, hd))
    if h is not None:
        k = E.any_key()
        x = z3.Select(E.arr(E.dict_of(h)), k)
        A = E.arr(E.dict_of(hd))
        models.inst(E, A, k); models.inst(E, E.dict_of(hd).base, k) if E.dict_of(hd).base is not None else None
        E.ensure("given headers are kept", z3.Implies(z3.And(given(x), k != E.term("Location")), z3.Select(A, k) == x))

ERR = {"InvalidRequest": "invalid_request", "InvalidClient": "invalid_client", "InvalidGrant": "invalid_grant", "UnauthorizedClient": "unauthorized_client", "AccessDenied": "access_denied", "UnsupportedResponseType": "unsupported_response_type", "UnsupportedGrantType": "unsupported_grant_type", "UnsupportedTokenType": "unsupported_token_type", "InvalidScope": "invalid_scope", "ServerError": "server_error", "TemporarilyUnavailable": "temporarily_unavailable"}

def errors(E):
    names = list(ERR) + ["FatalError"]
    n = names[E.choose(len(names))]
    kw = {"description": E.arg("description"), "uri": E.arg("uri"), "state": E.arg("state")}
    code = ERR.get(n)
    if code is None: code = kw["error"] = E.str_arg("error")
    r = E.do(getattr(X, n), **kw)
    if r.ok: r = E.do(E.getattr(r.v, "dump"))
    E.ensure(f"{n} can be dumped", r.ok)
    if not r.ok: return
    E.cover(n)
    d = E.dict_of(r.v)
    A = EMPTY_ARR
    for k, v in (("error", code), ("error_description", kw["description"]), ("error_uri", kw["uri"]), ("state", kw["state"])):
        t = E.term(v)
        A = z3.Store(A, E.term(k), z3.If(Val.is_none(t), Val.absent, t))
    E.ensure(f"the dump of {n} is its code and what is set", E.same_dict(r.v, HDict(base=A)))

FULL = ("psion.webtools.FullDict",)
def proofs():
    return [Proof("C32.fulldict", full, ["assigned"], "construction from and assignment to a null-dropping dictionary", inline=FULL), Proof("C32.nested", nested, ["built"], inline=FULL),
            Proof("C32.keywords", keywords, ["built"], inline=FULL), Proof("C32.json", jsonresp, ["made"]), Proof("C32.redirect", redirect, ["made"], "RedirectResponse(u) for every text u"),
            Proof("C32.errors", errors, list(ERR) + ["FatalError"])]
