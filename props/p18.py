from pv.prove import *
from pv.oauth import *
from pv.contracts_oauth import *
VEngine.literals = VEngine.literals | {"code", "redirect_uri", "code_verifier", "refresh_token", "plain", "S256", "scope", "access_token"}

def pkce_ok(E, o, v):
    """The verifier matches the stored challenge under the stored method."""
    s = Val.s(v)
    h = sha("sha256")(encode_t(E, s))
    s256 = z3.And(is_ascii(s), k_chal(o) == Val.vstr(b64u_of(E, h)))
    return z3.And(Val.is_vstr(v), z3.Or(z3.And(k_meth(o) == E.term("plain"), k_chal(o) == v), z3.And(k_meth(o) == E.term("S256"), s256)))

def conditions(E, d, c, t0):
    """[(label, formula)] and the code object."""
    code, uri, ver = (at(E, d, n) for n in ("code", "redirect_uri", "code_verifier"))
    o = k_obj(Val.s(code))
    co = c.ghost["oid"]
    return o, [("the code exists", z3.And(Val.is_vstr(code), k_exists(Val.s(code)))),
               ("the code belongs to the client", k_client(o) == Val.vstr(c_id(co))),
               ("the code was issued for the redirect URI presented", z3.And(Val.is_vstr(uri), k_uri(o) == uri)),
               ("the redirect URI is registered for the client", l_has(c_uris(co), uri)),
               ("the verifier matches the stored challenge", pkce_ok(E, o, ver)),
               ("the code has not expired", k_exp(o) > t0),
               ("the user of the code exists", u_exists(k_user(o)))]

def redeem(E):
    p, ad, g = the_grant(E, AuthorizationCodeGrant)
    d = params_arg(E)
    d0 = HDict(base=d.base)
    c = any_client(E)
    t0 = start_clock(E)
    r = E.do(E.getattr(g, "token"), d, c)
    made, more = calls(E, "create_access_token"), calls(E, "create_refresh_token")
    if not (made or more):
        E.cover("refused")
        return E.ensure(f"no success without a token, and a refusal is an OAuth 2 error ({r!r})"[:120], r.raised(OX.OAuth2Error))
    o, cs = conditions(E, d0, c, t0)
    E.cover("created")
    for label, f in cs: E.ensure("tokens are created only if " + label, f)
    for t in made + more:
        cl, us, sc = t[1]
        E.ensure("the tokens are for that client", same_obj(cl, "client", c.ghost["oid"]))
        E.ensure("the tokens are for the user of the code", same_obj(us, "user", u_obj(k_user(o))))
        E.ensure("the tokens have exactly the scopes of the code", same_words(E, sc, k_scopes(o)))
    reg = l_has(c_grants(c.ghost["oid"]), E.term("refresh_token"))
    if more: E.ensure("a refresh token is created only for a client registered for it", reg)
    E.ensure("one access token is created, and at most one refresh token", len(made) == 1 and len(more) <= 1)
    E.ensure("the redemption succeeds", r.ok)
    if not r.ok or E.kind(r.v) != "dict" or not made: return
    if not more: E.ensure("a client registered for refresh tokens gets one", z3.Not(reg))
    E.cover("answered")
    E.ensure("the response reports the access token", at(E, r.v, "access_token") == E.term(made[0][3]))
    E.ensure("the response reports the refresh token, if any", at(E, r.v, "refresh_token") == (E.term(more[0][3]) if more else Val.absent))
    E.ensure("the token type is Bearer", at(E, r.v, "token_type") == E.term("Bearer"))
    E.ensure("the lifetime is the configured one", at(E, r.v, "expires_in") == E.term(E.inputs["token_lifespan"]))
    E.ensure("the response reports the scopes", at(E, r.v, "scope") == z3.If(l_len(k_scopes(o)) > 0, joined(E, k_scopes(o)), Val.absent))

def proofs():
    return [Proof("C18.redeem", redeem, ["refused", "created", "answered"], "redemption with any parameters of a request")]
