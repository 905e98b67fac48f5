from pv.prove import *
from pv.oauth import *
from pv.contracts_oauth import *
from props.p20 import requested
from props.p22 import begin, registered
from psion.oidc.flows import AuthorizationCodeFlow
VEngine.literals = VEngine.literals | {"scopes"}

def plain(t): return z3.If(Val.is_absent(t), Val.none, t)

def run(body, oidc):
    def go(E):
        u = signed_in(E)
        p, ad, r, d, cid, uri = begin(E, body, u)
        if oidc: E.do(E.getattr(p, "add_hook"), AuthorizationCodeGrant, AuthorizationCodeFlow)
        scope, req = requested(E, d)
        out = E.do(E.getattr(p, "authorize"), r)
        saved = calls(E, "save_authorization_code")
        if not saved: return E.cover("refused")
        E.cover("saved")
        E.ensure("a code is saved once", len(saved) == 1)
        co, data, cl, us = saved[0][1]
        o = c_obj(Val.s(cid))
        ch, me = at(E, d, "code_challenge"), at(E, d, "code_challenge_method")
        E.ensure("a user is signed in, and the code is for that user", same_obj(us, "user", z3.Int("in_user")) if u is not None else False)
        E.ensure("the client and the redirect URI are valid", registered(cid, uri))
        E.ensure("the code is for the client of the request", same_obj(cl, "client", o))
        E.ensure("the response type is that of codes, and the client is registered for it", z3.And(at(E, d, "response_type") == E.term("code"), l_has(c_rtypes(o), E.term("code"))))
        E.ensure("a code challenge of 43 to 128 characters is given", z3.And(Val.is_vstr(ch), z3.Length(Val.s(ch)) >= 43, z3.Length(Val.s(ch)) <= 128))
        E.ensure("the method of the challenge is known", z3.Or(me == E.term("plain"), me == E.term("S256")))
        q = z3.FreshConst(Val, "word")
        E.ensure("the scope is text", z3.And(Val.is_vstr(scope), Val.s(scope) != z3.StringVal("")))
        E.ensure("the scopes follow the scope rules", z3.Implies(l_has(req, q), z3.And(l_has(z3.Int("server_scopes"), q), c_may(o, q))))
        t = z3.simplify(E.str_t(co)) if E.kind(co) == "str" else None
        E.ensure("the code is 64 independent draws from the URL-safe characters", z3.Length(t) == 64 if t is not None and random_text(E, t) == URL64 else False)
        if E.kind(data) != "dict": return E.ensure("the data saved is a dictionary", False)
        for k in ("code_challenge", "code_challenge_method", "redirect_uri", "state") + (("nonce",) if oidc else ()):
            E.ensure(f"the {k} saved is the one of the request", plain(at(E, data, k)) == plain(at(E, d, k)))
        E.ensure("the scopes saved are those of the request", same_words(E, E.wrap(at(E, data, "scopes")), req))
        loc = location(E, out)
        if loc is None: return E.ensure("the code is sent back", False)
        ts = targets(E, loc, Val.s(uri))
        E.ensure("the code sent back is the one saved", z3.Or([z3.And(f, at(E, x, "code") == E.term(co)) for f, _, x in ts]))
    return go

def proofs():
    out = []
    for body in ("bytes", None):
        for oidc in (False, True):
            out.append(Proof(f"C23.{'oidc' if oidc else 'plain'}.{'body' if body else 'nobody'}", run(body, oidc), ["refused", "saved"], "any authorization request" + (" with OpenID Connect" if oidc else ""), budget=150))
    return out
