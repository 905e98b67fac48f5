from pv.prove import *
from pv.oauth import *
from pv.contracts_oauth import *
from props.p20 import requested
VEngine.literals = VEngine.literals | {"refresh_token", "scope", "access_token", "grant_type"}
SECRET = HList(["client_secret_basic", "client_secret_post"])

def cc(body, grants):
    def run(E):
        p, ad = server(E, grants)
        r = request(E, body=body)
        d = E.getattr(r, "data")
        d = HDict(d.base, d.layers)
        E.assume(at(E, d, "grant_type") == E.term("client_credentials"))
        scope, req = requested(E, d)
        out = E.do(E.getattr(p, "token"), r)
        made = calls(E, "create_access_token")
        E.ensure("a refresh token is never created", not calls(E, "create_refresh_token"))
        a = answer(E, out)
        E.ensure("a refresh token is never returned", a is not None and z3.Not(given(member(E, a, "refresh_token"))))
        if not made:
            E.cover("refused")
            return E.ensure("a request without a token is refused", a is not None and is_status(E, a, 400))
        E.cover("created")
        E.ensure("one access token is created", len(made) == 1)
        cl, ow, sc = made[0][1]
        if not is_obj(cl, "client"): return E.ensure("the token is for a client", False)
        o = cl.ghost["oid"]
        E.ensure("the client is authenticated with a secret", proved_by(E, r, SECRET, o))
        E.ensure("the resource owner is the client itself", same_obj(ow, "client", o))
        q = z3.FreshConst(Val, "word")
        named = z3.And(z3.Not(Val.is_absent(scope)), l_has(req, q))
        E.ensure("every scope named is known to the server", z3.Implies(named, l_has(z3.Int("server_scopes"), q)))
        E.ensure("every scope named is allowed to the client", z3.Implies(named, c_may(o, q)))
        has = zb(contains(E, sc, Sym(q)))
        E.ensure("the scopes are the requested ones the client may use, or its default", has == z3.If(Val.is_absent(scope), l_has(c_default(o), q), named))
    return run

def proofs():
    return [Proof(f"C21.{n}.{'body' if b else 'nobody'}", cc(b, g), ["refused", "created"], "any client credentials request") for b in ("bytes", None) for n, g in (("only", [ClientCredentialsGrant]), ("all", None))]
