from pv.prove import *
from pv.oauth import *
from pv.contracts_oauth import *
VEngine.literals = VEngine.literals | {"token", "token_type_hint", "access_token", "refresh_token", "error"}

def run(body):
    def go(E):
        p, ad = server(E)
        r = request(E, body=body)
        F = form_arr(E, r)
        tok, hint = field(E, F, "token"), field(E, F, "token_type_hint")
        known = z3.Or(Val.is_absent(hint), hint == E.term("access_token"), hint == E.term("refresh_token"))
        out = E.do(E.getattr(p, "revoke"), r)
        done = calls(E, "revoke_token")
        other = [t for t in E.trace if t[0] not in ("find_client", "authenticated", "revoke_token")]
        E.ensure("storage is asked for the client and the revocation only", not other)
        E.ensure("at most one revocation is asked for", len(done) <= 1)
        a = answer(E, out)
        if a is None: return E.ensure(f"every request gets a JSON response ({out!r})"[:100], False)
        E.ensure("the answer is JSON", at(E, a.headers, "Content-Type") == E.term("application/json"))
        if done:
            E.cover("revoked")
            c, t, h = done[0][1]
            E.ensure("the revocation goes to the storage of the server", done[0][2] is ad)
            E.ensure("a revocation is for a client that the request proves", proved_by(E, r, None, c.ghost["oid"]) if is_obj(c, "client") else False)
            E.ensure("the token revoked is the one in the body of the request", z3.And(Val.is_vstr(tok), E.term(t) == tok))
            E.ensure("the hint is the one in the body of the request", E.term(h) == z3.If(Val.is_absent(hint), Val.none, hint))
            E.ensure("a revocation is asked for only without a hint or with a supported one", known)
            return E.ensure("a revocation is answered with 200", is_status(E, a, 200))
        c = E.getattr(r, "client")
        if c is None:
            E.cover("not authenticated")
            E.ensure("a failed authentication is answered with 401 and an error", And(is_status(E, a, 401), nonempty_str(member(E, a, "error"))))
            return
        E.ensure("the client of the request is one that it proves", proved_by(E, r, None, c.ghost["oid"]) if is_obj(c, "client") else False)
        E.ensure("an authenticated request with a token and no or a supported hint is carried out", z3.Or(Val.is_absent(tok), z3.Not(known)))
        E.cover("unsupported" if isinstance(a.status, int) and a.status == 400 else "no token")
        if isinstance(a.status, int):
            if a.status == 400: return E.ensure("400 is for a token with an unsupported hint", z3.And(z3.Not(Val.is_absent(tok)), z3.Not(known)))
            return E.ensure("a request without a token is answered with 200", And(a.status == 200, Val.is_absent(tok)))
        E.ensure("the status is 200 without a token, and 400 with an unsupported hint", z3.If(Val.is_absent(tok), zb(is_status(E, a, 200)), zb(is_status(E, a, 400))))
    return go

def proofs():
    return [Proof("C26.body", run("bytes"), ["revoked", "not authenticated", "unsupported", "no token"], "any revocation request with a body"),
            Proof("C26.nobody", run(None), ["not authenticated", "no token"], "any revocation request without a body")]
