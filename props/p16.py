from pv.prove import *
from pv.oauth import *
from pv.contracts_oauth import *
GRANTS = {"authorization_code": AuthorizationCodeGrant, "refresh_token": RefreshTokenGrant, "client_credentials": ClientCredentialsGrant}
METHODS = {"client_credentials": HList(["client_secret_basic", "client_secret_post"])}
VEngine.literals = VEngine.literals | {"grant_type", "error"}
MADE = ("create_access_token", "create_refresh_token")

def ask(E, body, grants, only=None):
    p, ad = server(E, grants)
    r = request(E, body=body)
    gt = at(E, E.getattr(r, "data"), "grant_type")
    if only: E.assume(gt == E.term(only))
    elif only is False:
        for n in GRANTS: E.assume(gt != E.term(n))
    return ad, r, gt, E.do(E.getattr(p, "token"), r)

def refused(E, out):
    a = answer(E, out)
    if a is None: return E.ensure(f"a refusal is an OAuth 2 error", False)
    E.ensure("a refusal is an OAuth 2 error", And(is_status(E, a, 400), z3.And(Val.is_vstr(member(E, a, "error")), *[z3.Not(given(member(E, a, n))) for n in ("access_token", "refresh_token", "id_token")])))

def issue(body, only, grants=None):
    """With psion's own grants: storage creates tokens only for entitled clients."""
    def run(E):
        use = list(GRANTS.values()) if grants is None else grants
        ad, r, gt, out = ask(E, body, use, only)
        made = calls(E, *MADE)
        if not made:
            E.cover("refused")
            return refused(E, out)
        for t in made:
            c = t[1][0]
            E.cover("token")
            if not (isinstance(c, IObj) and c.kind == "client"): return E.ensure("a token is created for a client", False)
            o = c.ghost["oid"]
            E.ensure("a token is created only for an authenticated client that is registered for the configured grant it names",
                     z3.Or([z3.And(gt == E.term(n), proved_by(E, r, METHODS.get(n), o), l_has(c_grants(o), E.term(n))) for n, g in GRANTS.items() if g in use]))
            E.ensure("a token is created in the storage of the server", t[2] is ad)
    return run

def runs(body, n):
    """With arbitrary grants: a grant is run only for an entitled client, and then once."""
    def run(E):
        ad, r, gt, out = ask(E, body, [any_grant(E, i, [OX.InvalidGrant]) for i in range(n)])
        ran = calls(E, "grant")
        if not ran:
            E.cover("refused")
            return refused(E, out)
        E.cover("run")
        E.ensure("at most one grant is run, once", len(ran) == 1)
        g, data, c = ran[0][1]
        if not (isinstance(c, IObj) and c.kind == "client"): return E.ensure("the grant is run for a client", False)
        o = c.ghost["oid"]
        E.ensure("the grant that is run is the one the request names", gt == E.term(g.ghost["name"]))
        E.ensure("the grant is run only for a client the request proves by a method the grant allows", proved_by(E, r, g.ghost["methods"], o))
        E.ensure("the grant is run only for a client registered for it", l_has(c_grants(o), gt))
    return run

def proofs():
    out = []
    for body in ("bytes", None):
        b = "body" if body else "nobody"
        for n in GRANTS: out.append(Proof(f"C16.issue.{n}.{b}", issue(body, n), ["refused"] + (["token"] if body or n == "x" else []), f"token requests for the grant {n}"))
        out.append(Proof(f"C16.issue.other.{b}", issue(body, False), ["refused"], "token requests for any other grant type"))
        out.append(Proof(f"C16.some.{b}", issue(body, None, [ClientCredentialsGrant]), ["refused", "token"], "a server with one grant only"))
        for n in (1, 2): out.append(Proof(f"C16.runs.{n}.{b}", runs(body, n), ["refused", "run"], f"{n} arbitrary grants"))
    return out
