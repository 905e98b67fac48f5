from .world import *
RULE = "histories of creating providers, adding hooks and sending requests; distinct by history"
POINTS = ["authorization_request", "authorization_response", "token_request", "token_response"]
GR = {"code": AuthorizationCodeGrant, "refresh": RefreshTokenGrant, "cc": ClientCredentialsGrant}
def cases(g):
    fixed = [
        [("new",), ("hook", 0, "code", "h", POINTS), ("new",), ("req", 1, "authz"), ("req", 1, "code"), ("req", 0, "authz"), ("req", 0, "code")],
        [("new",), ("new",), ("hook", 1, "code", "h", ["token_response"]), ("req", 0, "code"), ("req", 1, "code")],
        [("new",), ("hook", 0, "refresh", "h", POINTS), ("req", 0, "authz"), ("req", 0, "code"), ("req", 0, "refresh"), ("req", 0, "cc")],
        [("new",), ("hook", 0, "code", "h", ["token_request"]), ("hook", 0, "code", "k", ["token_response", "authorization_response"]), ("req", 0, "code"), ("req", 0, "authz"), ("req", 0, "code")],
        [("hookless",), ("new",), ("req", 0, "authz")],
        [("new",), ("hook", 0, "code", "h", []), ("req", 0, "authz")],
        [("new",), ("sub", 0, "h", POINTS), ("req", 0, "authz"), ("req", 0, "code")],
    ]
    for f in fixed: yield [x for x in f if x[0] != "hookless"]
    while True:
        n = g.int(1, 3); h = [("new",)] * 1; made = 1
        for _ in range(g.int(2, 9)):
            k = g.r.random()
            if k < 0.2 and made < 3: h.append(("new",)); made += 1
            elif k < 0.55: h.append(("hook", g.int(0, made - 1), g.one("code", "code", "code", "refresh", "cc"), g.one("h", "k", "m"), g.r.sample(POINTS, g.int(1, 4))))
            elif k < 0.6: h.append(("sub", g.int(0, made - 1), g.one("h", "k"), g.r.sample(POINTS, g.int(1, 4))))
            else: h.append(("req", g.int(0, made - 1), g.one("authz", "code", "code", "refresh", "cc")))
        h += [("req", i, k) for i in range(made) for k in ("authz", "code")]
        yield h

def mkhook(name, points, log):
    ns = {}
    def __init__(self, adapter, config): self.adapter, self.config = adapter, config
    ns["__init__"] = __init__
    def mk(p):
        async def f(self, *a, **k):
            log.append((name, p, self.adapter, self.config, a))
            return {f"{name}_{p}": "1"}
        return f
    for p in points: ns[p] = mk(p)
    return type("Hook" + name, (), ns)

def judge(hist):
    log, worlds, hooks, classes = [], [], [], {}
    for n, step in enumerate(hist):
        if step[0] == "new":
            w = world(); w["codes"] = {}; w["rts"] = {"RTOK": dict(client="c1", user="u1", scopes=["profile"], ttl=3600)}
            worlds.append(World(w)); hooks.append([])
        elif step[0] in ("hook", "sub"):
            if step[0] == "hook": _, i, gk, name, pts = step; cls = GR[gk]
            else: _, i, name, pts = step; gk, cls = "all", BaseGrant
            key = (name, tuple(pts))
            H = classes.setdefault(key, mkhook(name + str(len(classes)), pts, log))
            if any(h is H for _, h, _ in hooks[i]): continue
            worlds[i].provider.add_hook(cls, H)
            hooks[i].append((gk, H, pts))
        else:
            _, i, kind = step
            W = worlds[i]
            if kind == "code":
                W.codes["CODE"] = Code(dict(client="c1", user="u1", uri="https://c1.example/cb", scopes=["profile"], challenge=s256(VER), method="S256", ttl=3600))
            q = {"code": lambda: req(dict(grant_type="authorization_code", code="CODE", redirect_uri="https://c1.example/cb", code_verifier=VER)),
                 "refresh": lambda: req(dict(grant_type="refresh_token", refresh_token="RTOK")),
                 "cc": lambda: req(dict(grant_type="client_credentials")),
                 "authz": lambda: req({}, dict(client_id="c1", redirect_uri="https://c1.example/cb", response_type="code", code_challenge=CH, code_challenge_method="S256", scope="profile", state="s"), how="absent", method="GET", user="u1", path="https://as.example/authorize")}[kind]()
            del log[:]
            W.log.clear()
            r = W.call("authorize" if kind == "authz" else "token", q)
            cps = {"authz": ["authorization_request", "authorization_response"], "code": ["token_request", "token_response"]}.get(kind, [])
            gk0 = "code" if kind == "authz" else kind
            exp = sorted((H.__name__[4:], p) for gk, H, pts in hooks[i] if gk in (gk0, "all") for p in pts if p in cps)
            got = sorted((e[0], e[1]) for e in log)
            where = f"step {n + 1} {step} of {hist}"
            if r.raised is not None: return f"raised {r.raised!r}: {where}"
            if got != exp: return f"hooks run {got}, expected {exp}: {where}"
            for e in log:
                if e[2] is not W.provider.adapter or e[3] is not W.provider.config: return f"hook {e[0]}.{e[1]} has the adapter or configuration of another provider: {where}"
            m = {p: {f"{a}_{b}" for a, b in exp if b == p} for p in POINTS}
            if kind == "authz":
                if len(W.names("save")) != 1: return f"the request was refused: {r}: {where}"
                data = W.names("save")[0][2]
                if {k for k in data if "_authorization" in k or "_token_" in k} != m["authorization_request"]: return f"merged into the request: {sorted(data)}: {where}"
                ps = dict(parse_qsl(urlsplit(r.location).query))
                if set(ps) - {"code", "state"} != m["authorization_response"]: return f"merged into the response: {sorted(ps)}: {where}"
            elif kind == "code":
                j = js(r) or {}
                base = {"access_token", "token_type", "expires_in", "refresh_token", "scope"}
                if set(j) - base != m["token_response"] or r.status != 200: return f"merged into the response: {j}: {where}"
                for e in log:
                    if e[1] == "token_response":
                        if set(e[4][1]) - {"code", "redirect_uri", "code_verifier"} != m["token_request"]: return f"token_response hook was given {sorted(e[4][1])}: {where}"
            else:
                j = js(r) or {}
                if set(j) - {"access_token", "token_type", "expires_in", "refresh_token", "scope"}: return f"a hook changed the response of another grant: {j}: {where}"
    return None
