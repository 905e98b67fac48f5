from pv.prove import *
from pv.oauth import *
from pv.contracts_oauth import *
from props.p20 import requested
VEngine.literals = VEngine.literals | {"scope", "code_challenge", "code_challenge_method", "plain", "S256", "refresh_token", "redirect_uri", "state"}
EFFECTS = ("save_authorization_code", "create_access_token", "create_refresh_token")
GR = {"code": AuthorizationCodeGrant, "refresh": RefreshTokenGrant, "client": ClientCredentialsGrant}

def go(E, which):
    """Runs the scope-checked step of a grant: (outcome, client, formula of the scope being named, its original grant)."""
    p, ad, g = the_grant(E, GR[which])
    d = params_arg(E)
    d0 = HDict(base=d.base)
    if which == "code": E.assume(nonempty_str(at(E, d, "redirect_uri")))
    c = any_client(E)
    start_clock(E)
    scope, req = requested(E, d0)
    named = lambda q: z3.And(z3.Not(Val.is_absent(scope)), l_has(req, q))
    f = E.getattr(g, "authorize" if which == "code" else "token")
    return d0, c, named, (lambda: E.do(f, d, c, user(E, z3.Int("in_user"))) if which == "code" else E.do(f, d, c))

def fine(c, q): return z3.And(l_has(z3.Int("server_scopes"), q), c_may(c.ghost["oid"], q))

def sound(which):
    def run(E):
        d, c, named, f = go(E, which)
        r = f()
        if not calls(E, *EFFECTS):
            return E.cover("refused")
        E.cover("went on")
        q = z3.FreshConst(Val, "word")
        E.ensure("a grant that goes on was asked for scopes of the server only", z3.Implies(named(q), l_has(z3.Int("server_scopes"), q)))
        E.ensure("a grant that goes on was asked for scopes allowed to the client only", z3.Implies(named(q), c_may(c.ghost["oid"], q)))
    return run

def valid_rest(E, which, d, c):
    """The request is in order but for its scope."""
    if which == "code":
        ch = at(E, d, "code_challenge")
        E.assume(z3.And(Val.is_vstr(ch), z3.Length(Val.s(ch)) >= 43, z3.Length(Val.s(ch)) <= 128))
        m = at(E, d, "code_challenge_method")
        E.assume(z3.Or(m == E.term("plain"), m == E.term("S256")))
    if which == "refresh":
        t = at(E, d, "refresh_token")
        o = r_obj(Val.s(t))
        E.assume(z3.And(Val.is_vstr(t), r_exists(Val.s(t)), r_client(o) == Val.vstr(c_id(c.ghost["oid"])), r_exp(o) > z3.Real("far")))

def refused(which):
    """A scope that is not the server's or not allowed: invalid_scope, and nothing is done."""
    def run(E):
        d, c, named, f = go(E, which)
        valid_rest(E, which, d, c)
        q = z3.Const("in_word", Val)
        E.assume(z3.And(named(q), Val.is_vstr(q), z3.Not(fine(c, q))))
        if which == "refresh":
            far = z3.Real("far")
            E.ghost["latest"] = far
        r = f()
        if which == "refresh" and any(True for x in E.ghost.get("reads", ())):
            E.assume(z3.And([x < z3.Real("far") for x in E.ghost["reads"]]))
        E.cover("asked")
        E.ensure("a scope that is not supported or not allowed is refused as invalid_scope", r.raised(OX.InvalidScope))
        E.ensure("nothing is saved or created", not calls(E, *EFFECTS))
    return run

def accepted(which):
    """Refused for its scope only if some scope is not supported or not allowed (or, on refresh, was not granted)."""
    def run(E):
        d, c, named, f = go(E, which)
        r = f()
        if not r.raised(OX.InvalidScope): return E.cover("other")
        E.cover("invalid scope")
        q = z3.Const("q!w", Val)
        bad = z3.Not(fine(c, q))
        if which == "refresh": bad = z3.Or(bad, z3.Not(l_has(r_scopes(r_obj(Val.s(at(E, d, "refresh_token")))), q)))
        E.ensure("a request whose scopes are all supported and allowed is not refused for its scope", z3.Exists([q], z3.And(named(q), bad)))
    return run

def proofs():
    out = []
    for w in GR:
        out.append(Proof(f"C25.only.{w}", sound(w), ["refused", "went on"], f"the {w} grant, any request"))
        out.append(Proof(f"C25.refused.{w}", refused(w), ["asked"], f"the {w} grant, a scope that is not supported or not allowed"))
        out.append(Proof(f"C25.accepted.{w}", accepted(w), ["invalid scope", "other"], f"the {w} grant, refusals for the scope"))
    return out
