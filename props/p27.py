from pv.prove import *
from pv.oauth import *
from pv.contracts_oauth import *
POINTS = ("authorization_request", "authorization_response", "token_request", "token_response")
OWN = dict(authorization_request=("code_challenge", "code_challenge_method", "redirect_uri", "scopes", "scope", "state"), authorization_response=("code", "state"),
           token_request=("code", "redirect_uri", "code_verifier"), token_response=("access_token", "token_type", "expires_in", "refresh_token", "scope"))
VEngine.literals = VEngine.literals | {x for v in OWN.values() for x in v} | {"plain", "S256"}

# ---- hooks an application may define
def hook_type(E, name, points):
    return IObj("hooktype", name=name, points=points)

IFACE[("hooktype", "*")] = lambda E, o, n: Model(n, lambda E, a, k: E.raise_(TypeError)) if n in o.ghost["points"] else o.ghost["name"] if n == "__name__" else MISSING
IFACE[("hooktype", "__call__")] = lambda E, o, a, k: IObj("hook", type=o, adapter=a[0] if a else k["adapter"], config=a[1] if len(a) > 1 else k["config"])

def hook_attr(E, o, n):
    if n not in o.ghost["type"].ghost["points"]: return MISSING
    def call(E, a, k):
        def thunk():
            res = None
            if E.choose(2):
                d = z3.FreshInt("hooked")
                A = d_arr(d)
                mark_strkeys(E, A)
                def ins(kt):
                    x = z3.Select(A, kt)
                    E.fact(z3.Or(Val.is_absent(x), z3.And(Val.is_vstr(x), Val.s(x) != z3.StringVal(""), Val.is_vstr(kt))))
                E.insts[A.get_id()] = (A, ins)
                E.textvals[A.get_id()] = A
                E.without[z3.simplify(A).get_id()] = (A, OWN[n])
                for w in OWN[n]: E.fact(Val.is_absent(field(E, A, w)))
                res = HDict(base=A)
            E.trace.append(("hook", record(E, n, list(a) + list(k.values())), o, n, HDict(base=res.base) if res is not None else None))
            return res
        return Coro(thunk, n)
    return Model(n, call)
IFACE[("hook", "*")] = hook_attr

def ran(E, t=None, point=None): return [x for x in E.trace if x[0] == "hook" and (t is None or x[2].ghost["type"] is t) and (point is None or x[3] == point)]

def setup(E, points, second):
    """Two providers created in either order around the addition of a hook to the code grant of the first, and a second hook somewhere."""
    order = E.choose(2)
    a = server(E)
    if order: b = server(E)
    h = hook_type(E, "H", points)
    r = E.do(E.getattr(a[0], "add_hook"), AuthorizationCodeGrant, h)
    E.ensure("a hook can be added", r.ok)
    if not order: b = server(E)
    g = None
    if second:
        g = hook_type(E, "G", points if second == "same" else POINTS)
        p, cls = {"same": (a[0], AuthorizationCodeGrant), "grant": (a[0], RefreshTokenGrant), "provider": (b[0], AuthorizationCodeGrant)}[second]
        r = E.do(E.getattr(p, "add_hook"), cls, g)
        E.ensure("a second hook can be added", r.ok)
    return a, b, h, g

def grant_of(E, p, cls):
    return next(x for x in E.getattr(p, "grants").items if isinstance(x, HObj) and issubclass(x.cls, cls))

def act(E, p, op):
    """Runs a step of a grant on any request: (outcome, parameters, client)."""
    cls = {"authorize": AuthorizationCodeGrant, "token": AuthorizationCodeGrant, "refresh": RefreshTokenGrant, "client": ClientCredentialsGrant}[op]
    d = params_arg(E)
    d0 = HDict(base=d.base)
    c = any_client(E)
    start_clock(E)
    g = grant_of(E, p, cls)
    if op == "authorize":
        E.assume(nonempty_str(at(E, d, "redirect_uri")))
        return E.do(E.getattr(g, "authorize"), d, c, user(E, z3.Int("in_user"))), d0, c
    return E.do(E.getattr(g, "token"), d, c), d0, c

def merged(E, point, v, hooks, what):
    """Every further entry of v is what some hook returned at the point, and all of that is there."""
    q = z3.Const("in_key", Val)
    E.assume(z3.And(Val.is_vstr(q), *[q != E.term(w) for w in OWN[point]]))
    x = E.get(v, E.wrap(q))
    rs = [E.get(r, E.wrap(q)) for r in hooks]
    E.ensure(what + " has what the hook returned and nothing else", z3.Or([x == r for r in rs]) if rs else Val.is_absent(x)) if len(rs) < 2 else \
        E.ensure(what + " has what the hooks returned and nothing else", z3.Or([z3.And(x == r, z3.Not(Val.is_absent(r))) for r in rs] + [z3.And(Val.is_absent(x), *[Val.is_absent(r) for r in rs])]))

def here(op, second=None, left=()):
    some = ("authorization_request", "authorization_response") if op == "authorize" else ("token_request", "token_response")
    def run(E):
        a, b, h, g = setup(E, tuple(p for p in POINTS if p not in left), second)
        out, d, c = act(E, a[0], op)
        mine = [h] + ([g] if second == "same" else [])
        E.ensure("only the hooks of the grant run", all(any(x[2].ghost["type"] is t for t in mine) for x in ran(E)))
        E.ensure("a hook runs at the checkpoints of the step only", all(x[3] in some for x in ran(E)))
        E.ensure("a hook runs at most once at a checkpoint", all(len(ran(E, t, p)) <= 1 for t in mine for p in POINTS))
        E.ensure("a hook has the adapter and the configuration of its provider", all(x[2].ghost["adapter"] is a[1] and x[2].ghost["config"] is E.getattr(a[0], "config") for x in ran(E)))
        got = lambda p: [x[4] for x in ran(E, None, p) if x[4] is not None]
        saved = calls(E, "save_authorization_code")
        if saved:
            data = saved[0][1][1]
            merged(E, some[0], data, got(some[0]), "the data saved")
            for k in ("code_challenge", "code_challenge_method", "redirect_uri"): E.ensure(f"the {k} is the one of the request", at(E, data, k) == at(E, d, k))
        for x in ran(E, None, "token_response"):
            if len(x[1]) > 1:
                merged(E, some[0], x[1][1], got(some[0]), "the data of the token request")
                for k in OWN[some[0]]: E.ensure(f"the {k} is the one of the request", at(E, x[1][1], k) == at(E, d, k))
        if not out.ok: return E.cover("refused")
        E.cover("answered")
        for t in mine:
            for p in some: E.ensure("a hook runs once at each checkpoint it implements, and at no other", len(ran(E, t, p)) == (1 if p in t.ghost["points"] else 0))
        if op == "authorize":
            ts = targets(E, E.str_t(out.v), Val.s(at(E, d, "redirect_uri"))) if E.kind(out.v) == "str" else ()
            if not written(ts): return E.ensure("the answer is the redirect URI and parameters", False)
            r = ts[0][2]
        else: r = out.v
        merged(E, some[1], r, got(some[1]), "the response")
    return run

def elsewhere(op, where):
    """Another grant, or the grant of another provider, does not run the hook."""
    def run(E):
        a, b, h, _ = setup(E, POINTS, None)
        out, d, c = act(E, b[0] if where == "provider" else a[0], op)
        E.cover("answered" if out.ok else "refused")
        E.ensure("a hook does not run in another grant or provider", not ran(E))
    return run

def proofs():
    out, both = [], ["refused", "answered"]
    for op, (a, b) in dict(authorize=POINTS[:2], token=POINTS[2:]).items():
        for n, left in (("both", ()), ("first", (b,)), ("last", (a,)), ("neither", (a, b))):
            out.append(Proof(f"C27.here.{op}.{n}", here(op, None, left), both, f"the {op} step of a grant with a hook for {n} of its checkpoints", budget=150))
        out.append(Proof(f"C27.two.{op}.first", here(op, "same", (b,)), both, f"the {op} step of a grant with two hooks", budget=150))
        out.append(Proof(f"C27.two.{op}.last", here(op, "same", (a,)), both, f"the {op} step of a grant with two hooks", budget=150))
        for s in ("grant", "provider"): out.append(Proof(f"C27.here.{op}.{s}", here(op, s, (a,)), both, f"the {op} step of a grant with a hook, and a hook for another {s}", budget=150))
    for op in ("authorize", "token", "refresh", "client"): out.append(Proof(f"C27.provider.{op}", elsewhere(op, "provider"), both, f"the {op} step of another provider", budget=150))
    for op in ("refresh", "client"): out.append(Proof(f"C27.grant.{op}", elsewhere(op, "grant"), both, f"the {op} step of another grant", budget=150))
    return out
