from pv.prove import *
from pv.oauth import *
from pv.contracts_oauth import *
VEngine.literals = VEngine.literals | {"refresh_token", "scope", "access_token"}

def requested(E, d):
    """The scope parameter, and the list of its words."""
    s = at(E, d, "scope")
    l = ws_split(Val.s(s))
    return s, l

def any_word(E, *vs):
    """An arbitrary word of a list (formula of its being in there, and the word)."""
    q = z3.FreshConst(Val, "word")
    return q

def refresh_(E):
    p, ad, g = the_grant(E, RefreshTokenGrant)
    d = params_arg(E)
    tok, (scope, req) = at(E, d, "refresh_token"), requested(E, d)
    c = any_client(E)
    co = c.ghost["oid"]
    t0 = start_clock(E)
    r = E.do(E.getattr(g, "token"), d, c)
    made, more = calls(E, "create_access_token"), calls(E, "create_refresh_token")
    if not (made or more):
        E.cover("refused")
        return E.ensure(f"no success without a token, and a refusal is an OAuth 2 error", r.raised(OX.OAuth2Error))
    E.cover("created")
    o = r_obj(Val.s(tok))
    E.ensure("tokens are created only if the refresh token exists", z3.And(Val.is_vstr(tok), r_exists(Val.s(tok))))
    E.ensure("tokens are created only if the refresh token belongs to the client", r_client(o) == Val.vstr(c_id(co)))
    E.ensure("tokens are created only if the refresh token has not expired", r_exp(o) > t0)
    E.ensure("tokens are created only if the user exists", u_exists(r_user(o)))
    q = z3.FreshConst(Val, "word")
    named = z3.And(z3.Not(Val.is_absent(scope)), l_has(req, q))
    E.ensure("every scope named was granted originally", z3.Implies(named, l_has(r_scopes(o), q)))
    E.ensure("every scope named is known to the server", z3.Implies(named, l_has(z3.Int("server_scopes"), q)))
    E.ensure("every scope named is allowed to the client", z3.Implies(named, c_may(co, q)))
    for t in made + more:
        cl, us, sc = t[1]
        E.ensure("the tokens are for that client", same_obj(cl, "client", co))
        E.ensure("the tokens are for the user of the refresh token", same_obj(us, "user", u_obj(r_user(o))))
        q = z3.FreshConst(Val, "word")
        has = zb(contains(E, sc, Sym(q)))
        E.ensure("the scopes are among those originally granted", z3.Implies(has, l_has(r_scopes(o), q)))
        E.ensure("the scopes are among those the client may still use", z3.Implies(has, c_may(co, q)))

def proofs():
    return [Proof("C20.refresh", refresh_, ["refused", "created"], "any refresh request of any client")]
