from pv.prove import *
from pv.oauth import *
from pv.contracts_oauth import *
from props.p22 import begin, registered
from psion.oidc.flows import AuthorizationCodeFlow

def exact(E, x, d, saved, sep, uri):
    """[(label, formula)]: the parameters of a redirection to the client."""
    st = at(E, x, "state") == at(E, d, "state")
    own = Iff(z3.Contains(Val.s(uri), z3.StringVal("?")), sep == "&")
    if saved: return [("the code of the redirect is the one issued", at(E, x, "code") == E.term(saved[0][1][0])), ("the state is the one of the request, exactly when it had one", st),
                      ("the query of the registered URI is preserved", own), ("a success carries no error", Val.is_absent(at(E, x, "error")))]
    return [("an error redirect carries an error code", nonempty_str(at(E, x, "error"))), ("an error redirect carries the state of the request, exactly when it had one", st),
            ("an error redirect carries no code", Val.is_absent(at(E, x, "code"))), ("the query of the registered URI is preserved", own)]

def run(body, oidc, who, consent=False):
    def go(E):
        p, ad, r, d, cid, uri = begin(E, body, user(E, z3.Int("in_user")) if who else None)
        if oidc: E.do(E.getattr(p, "add_hook"), AuthorizationCodeGrant, AuthorizationCodeFlow)
        f = E.getattr(p, "authorize")
        out = E.do(E.getattr(f, "get_consent_data") if consent else f, r)
        if consent and out.ok and E.kind(out.v) == "dict": return E.cover("consent")
        loc = location(E, out)
        if loc is None: return E.ensure("the answer is a redirection", False)
        saved = calls(E, "save_authorization_code")
        ps, ts = targets(E, loc, E.str_t(E.inputs["error_url"])), targets(E, loc, Val.s(uri))
        if not saved and written(ps): return E.cover("error page")
        E.cover("success" if saved else "error")
        if written(ts):
            for l, g in exact(E, ts[0][2], d, saved, ts[0][1], uri): E.ensure(l, g)
            return
        page = z3.Or([g for g, _, _ in ps])
        ok = z3.Or([z3.And(g, *[y for _, y in exact(E, x, d, saved, sep, uri)]) for g, sep, x in ts])
        E.ensure("a redirection to the client carries code or error and the state exactly", ok if saved else z3.Or(page, ok))
    return go

def proofs():
    out = []
    for body in ("bytes", None):
        b = "body" if body else "nobody"
        for who in (True, False):
            out.append(Proof(f"C24.{'user' if who else 'nouser'}.{b}", run(body, False, who), ["success", "error", "error page"] if who else ["error", "error page"], "any authorization request", budget=150))
        out.append(Proof(f"C24.oidc.{b}", run(body, True, True), ["success", "error", "error page"], "any authorization request with OpenID Connect", budget=150))
        out.append(Proof(f"C24.consent.{b}", run(body, False, True, True), ["consent", "error", "error page"], "any consent request", budget=150))
    return out
