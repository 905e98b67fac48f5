from pv.prove import *
from pv.oauth import *
from pv.contracts_oauth import *
VEngine.literals = VEngine.literals | {"client_id", "redirect_uri", "response_type", "state", "scope", "code_challenge", "code_challenge_method", "nonce", "plain", "S256", "code"}

def begin(E, body, u=None):
    p, ad = server(E)
    r = request(E, u, body)
    d = E.getattr(r, "data")
    d = HDict(d.base, d.layers)
    cid, uri = at(E, d, "client_id"), at(E, d, "redirect_uri")
    clean_uris(E, c_obj(Val.s(cid)), uri)
    return p, ad, r, d, cid, uri

def registered(cid, uri):
    """The request names a client, and a redirect URI registered for it."""
    return z3.And(Val.is_vstr(cid), Val.is_vstr(uri), c_exists(Val.s(cid)), l_has(c_uris(c_obj(Val.s(cid))), uri))

def safe(E, out, cid, uri):
    loc = location(E, out)
    if loc is None: return E.ensure(f"the answer is a redirection ({out!r})"[:120], False)
    st = E.getattr(out.v, "status_code")
    E.ensure("the status is a redirection", isinstance(st, int) and 300 <= st < 400)
    ps, ts = targets(E, loc, E.str_t(E.inputs["error_url"])), targets(E, loc, Val.s(uri))
    if written(ps): return E.ensure("the target is the error page, followed by parameters only", ps[0][0])
    if written(ts): return E.ensure("the target is a redirect URI registered for the client, followed by parameters only", z3.And(registered(cid, uri), ts[0][0]))
    page = z3.Or([f for f, _, _ in ps])
    there = z3.And(registered(cid, uri), z3.Or([f for f, _, _ in ts]))
    E.ensure("the target is the error page or a redirect URI registered for the client, followed by parameters only", z3.Or(page, there))
    E.ensure("without a registered redirect URI the target is the error page", z3.Implies(z3.Not(registered(cid, uri)), page))

def endpoint(body, who):
    def run(E):
        p, ad, r, d, cid, uri = begin(E, body, user(E, z3.Int("in_user")) if who else None)
        out = E.do(E.getattr(p, "authorize"), r)
        E.cover("code" if calls(E, "save_authorization_code") else "error")
        safe(E, out, cid, uri)
    return run

def consent(body):
    def run(E):
        p, ad, r, d, cid, uri = begin(E, body, signed_in(E))
        out = E.do(E.getattr(E.getattr(p, "authorize"), "get_consent_data"), r)
        E.ensure("the consent step creates nothing", not [t for t in E.trace if t[0] != "find_client"])
        if out.ok and E.kind(out.v) == "dict":
            E.cover("consent")
            E.ensure("consent is asked only for a registered client and redirect URI", registered(cid, uri))
            return
        E.cover("error")
        safe(E, out, cid, uri)
    return run

def proofs():
    out = []
    for body in ("bytes", None):
        b = "body" if body else "nobody"
        out.append(Proof(f"C22.authorize.user.{b}", endpoint(body, True), ["code", "error"], "any authorization request of a signed-in user", budget=150))
        out.append(Proof(f"C22.authorize.nouser.{b}", endpoint(body, False), ["error"], "any authorization request without a user"))
        out.append(Proof(f"C22.consent.{b}", consent(body), ["consent", "error"], "any consent request"))
    return out
