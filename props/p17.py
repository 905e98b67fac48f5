from pv.prove import *
from pv.oauth import *
from pv.contracts_oauth import *
from props.p16 import GRANTS
VEngine.literals = VEngine.literals | {"grant_type", "error", "Cache-Control", "Pragma", "Content-Type"}
ERRORS = [OX.InvalidRequest, OX.InvalidClient, OX.InvalidGrant, OX.UnauthorizedClient, OX.AccessDenied, OX.UnsupportedResponseType, OX.UnsupportedGrantType, OX.UnsupportedTokenType, OX.InvalidScope, OX.ServerError, OX.TemporarilyUnavailable, OX.FatalError]
BASE = {"Content-Type": "application/json", "Cache-Control": "no-store", "Pragma": "no-cache"}

def uncached(E, a):
    return z3.And(at(E, a.headers, "Cache-Control") == E.term("no-store"), at(E, a.headers, "Pragma") == E.term("no-cache"))

def plain_headers(E, a): return E.same_dict(a.headers, HDict(layers=list(BASE.items())))

def is_error(E, a):
    return And(is_status(E, a, 400), z3.And(Val.is_vstr(member(E, a, "error")), *[z3.Not(given(member(E, a, n))) for n in ("access_token", "refresh_token", "id_token")]))

def own(body, only):
    """Every request to a server with psion's own grants."""
    def run(E):
        p, ad = server(E)
        r = request(E, body=body)
        gt = at(E, E.getattr(r, "data"), "grant_type")
        if only: E.assume(gt == E.term(only))
        else:
            for n in GRANTS: E.assume(gt != E.term(n))
        out = E.do(E.getattr(p, "token"), r)
        a = answer(E, out)
        if a is None: return E.ensure(f"every request gets a JSON response ({out!r})"[:150], False)
        E.ensure("the response must not be cached", uncached(E, a))
        E.ensure("the headers are those of a JSON response that must not be cached", plain_headers(E, a))
        ok = is_status(E, a, 200)
        if ok is True:
            E.cover("200")
            t = member(E, a, "access_token")
            E.ensure("a success carries a token the storage created", z3.Or([t == E.term(c[3]) for c in calls(E, "create_access_token")]) if calls(E, "create_access_token") else False)
        else:
            E.cover("400")
            E.ensure("anything else is an OAuth 2 error without a token", is_error(E, a))
        E.ensure("no shared state is written", not E.globmut)
    return run

def arbitrary(body):
    """An arbitrary grant, that answers or raises any OAuth 2 error with any headers; and a second request after it."""
    def run(E):
        h = [None, E.dict_arg("error_headers")][E.choose(2)]
        H = None if h is None else HDict(base=E.arr(E.dict_of(h)))
        E.ghost["grant_headers"] = H
        p, ad = server(E, [any_grant(E, 0, ERRORS)])
        r = request(E, body=body)
        out = E.do(E.getattr(p, "token"), r)
        a = answer(E, out)
        if a is None: return E.ensure(f"every request gets a JSON response ({out!r})"[:150], False)
        E.ensure("the response must not be cached", uncached(E, a))
        ran = calls(E, "grant")
        if ran and ran[0][3] == 0:
            E.cover("success")
            E.ensure("a success is the response of the grant", And(is_status(E, a, 200), isinstance(a.body, HDict) and E.same_dict(a.body, HDict(base=d_arr(E.ghost["granted"])))))
            E.ensure("the headers are those of a JSON response that must not be cached", plain_headers(E, a))
        else:
            E.cover("error" if ran else "refused")
            E.ensure("anything else is an OAuth 2 error without a token", is_error(E, a))
            if ran:
                x = ERRORS[ran[0][3] - 1]
                code = member(E, a, "error")
                E.ensure("the error is the one of the grant", code == E.term(x.error if x is not OX.FatalError else E.inputs["error_code"]))
            else: E.ensure("the headers are those of a JSON response that must not be cached", plain_headers(E, a))
        # the next request
        E.ghost["grant_headers"] = None
        r2 = E.do(Request, "POST", "https://as/token", HDict(), None, None)
        if not r2.ok: return
        a2 = answer(E, E.do(E.getattr(p, "token"), r2.v))
        if a2 is None: return E.ensure("every request gets a JSON response", False)
        E.ensure("a request without parameters is refused", is_error(E, a2))
        E.ensure("the headers of one request do not leak into another", plain_headers(E, a2))
        E.ensure("no shared state is written", not E.globmut)
    return run

def proofs():
    out = []
    for body in ("bytes", None):
        b = "body" if body else "nobody"
        for n in GRANTS: out.append(Proof(f"C17.own.{n}.{b}", own(body, n), ["400"] + (["200"] if body else []), f"token requests for the grant {n}"))
        out.append(Proof(f"C17.own.other.{b}", own(body, None), ["400"], "token requests for any other grant type"))
        out.append(Proof(f"C17.any.{b}", arbitrary(body), ["success", "error", "refused"], "an arbitrary grant, twice"))
    return out
