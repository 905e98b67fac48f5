from pv.prove import *
from pv.oauth import *
from pv.contracts_oauth import *
from props.p30 import body_text, pairs
from psion.oauth2.authentication import ClientAuthentication
AUTH = ("psion.oauth2.authentication.ClientAuthentication.__call__",)
METHODS = ("client_secret_basic", "client_secret_post", "none")

def setup(E, body):
    ad = new_adapter()
    r = request(E, body=body)
    a = E.do(ClientAuthentication, E.getattr(ad, "find_client"))
    if not a.ok: raise PathEnd
    auth = auth_header(E, E.getattr(r, "headers"))
    F = form_of(E, body)
    return r, a.v, auth, F

def form_of(E, body):
    b = E.inputs.get("body")
    return pairs(E, z3.simplify(body_text(E, b if body else None)))

def methods_arg(E, given):
    """What the caller allows: (argument, formula of a method being allowed)."""
    if not given: return None, lambda m: z3.BoolVal(True)
    l = z3.Int("in_methods")
    strlist(E, l)
    E.assume(l_len(l) > 0)
    q = Sym(Val.vlist(l))
    E.inputs["methods"] = q
    return q, lambda m: l_has(l, Val.vstr(sval(m)))

def only(given, body):
    def run(E):
        r, a, auth, F = setup(E, body)
        ms, may = methods_arg(E, given)
        c = E.do(a, r, ms)
        ps = proofs_of(E, auth, F, may)
        if not c.ok:
            E.cover("refused")
            return E.ensure("a refusal is invalid_client", c.raised(OX.InvalidClient))
        E.cover("authenticated")
        if not (isinstance(c.v, IObj) and c.v.kind == "client"): return E.ensure("the answer is a client", False)
        o = c.v.ghost["oid"]
        E.ensure("the request proves the client it is authenticated as, with an allowed method", z3.Or([z3.And(f, o == x) for _, f, x in ps]))
        k = E.getattr(r, "client")
        E.ensure("the request carries the client", isinstance(k, IObj) and k.kind == "client" and E.same(k, c.v))
    return run

def accepted(m, given, body):
    def run(E):
        r, a, auth, F = setup(E, body)
        ms, may = methods_arg(E, given)
        f, o = next((f, o) for n, f, o in proofs_of(E, auth, F, may) if n == m)
        E.assume(f)
        if m == "client_secret_basic": E.assume(Val.is_absent(field(E, F, "client_id")))
        else: E.assume(z3.Not(basic_ok(auth)))
        c = E.do(a, r, ms)
        E.cover("asked")
        if not c.ok: return E.ensure(f"a request with the right credentials is not refused ({c!r})", False)
        E.ensure("it is authenticated as that client", isinstance(c.v, IObj) and c.v.kind == "client" and c.v.ghost["oid"] == o)
    return run

def proofs():
    out = []
    for given in (False, True):
        g = "chosen" if given else "all"
        for body in ("bytes", None):
            b = "body" if body else "nobody"
            out.append(Proof(f"C14.only.{g}.{b}", only(given, body), ["authenticated", "refused"], "any request, any methods allowed", inline=AUTH))
            for m in METHODS:
                if body or m == "client_secret_basic": out.append(Proof(f"C14.accepted.{m}.{g}.{b}", accepted(m, given, body), ["asked"], "any request with the right credentials", inline=AUTH))
    return out
