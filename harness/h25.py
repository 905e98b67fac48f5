from .world import *
RULE = "requests of every grant over random server scopes, client scopes and requested scopes; distinct by world and request"
POOL = ["openid", "profile", "email", "admin", "a", "b", "openid2", "pro", "é"]
def cases(g):
    its = [(combos(g, RT_SPEC), build_rt, "refresh"), (combos(g, CC_SPEC), build_cc, "cc"), (combos(g, AUTHZ_SPEC), build_authz, "authz")]
    while True:
        for it, b, k in its: yield dict(b(next(it)), kind=k)
        ss, cs = g.r.sample(POOL, g.int(0, 6)), g.r.sample(POOL, g.int(0, 6))
        common = [s for s in ss if s in cs] or POOL
        rs = [g.one(common if g.maybe(0.8) else POOL) for _ in range(g.int(1, 4))]
        k = g.one("refresh", "cc", "authz")
        if k == "authz":
            c = {f: v[0][0] for f, v in AUTHZ_SPEC.items()}
            c.update(scope=g.one(" ", "  ").join(rs), cscopes=cs, state=None, order=g.one(None, 1))
            x = build_authz(c)
        elif k == "cc":
            c = {f: v[0][0] for f, v in CC_SPEC.items()}
            c.update(scope=" ".join(rs), cscopes=cs, order=g.one(None, 1))
            x = build_cc(c)
        else:
            c = {f: v[0][0] for f, v in RT_SPEC.items()}
            c.update(scope=" ".join(rs), cscopes=cs, tscopes=g.one([list(dict.fromkeys(rs)), POOL[:5], list(dict.fromkeys(rs + POOL[:3]))]), order=g.one(None, 1))
            x = build_rt(c)
        x["world"]["scopes"] = ss
        yield dict(x, kind=k)

def judge(c):
    w, q, k = c["world"], c["req"], c["kind"]
    d = params(q)
    if k == "authz":
        W, r = run_authz(c)
        effect = W.names("save")
        cid = d.get("client_id")
        err = dict(parse_qsl(urlsplit(r.location or "").query)).get("error")
        wf = ref_authz(w, q) == "client"
    else:
        W, r = run_token(c)
        effect = created(W)
        gt = "refresh_token" if k == "refresh" else "client_credentials"
        if d.get("grant_type") != gt: return None
        a, definite = ref_auth(w, q, GM["cc"] if k == "cc" else None)
        if not a or not definite: return None
        cid = next(iter(a))
        j = js(r)
        err = j.get("error") if isinstance(j, dict) else None
        wf = True
    if cid not in w["clients"]: return None
    rs = d["scope"].split() if d.get("scope") else []
    C = w["clients"][cid]
    bad = [s for s in rs if s not in w["scopes"] or s not in C["scopes"]]
    where = f"{k}: requested {rs}, server {w['scopes']}, client {C['scopes']}, answer {r}"
    if bad and effect: return f"went on although {bad} are not supported by the server or not allowed to the client: {where}"
    if bad and r.raised is None and err is None and r.status == 200: return f"not refused: {where}"
    if not bad and err == "invalid_scope":
        if k == "refresh":
            rt = w["rts"].get(d.get("refresh_token"))
            if rt and any(s not in rt["scopes"] for s in rs): return None
        return f"refused for its scope although every scope is supported and allowed: {where}"
    # everything else valid: the refusal must be invalid_scope
    if bad and k == "authz" and err and err != "invalid_scope":
        c2 = copy.deepcopy(c); c2["world"]["scopes"] = list(dict.fromkeys(w["scopes"] + rs)); c2["world"]["clients"][cid]["scopes"] = list(dict.fromkeys(C["scopes"] + rs))
        if authz_valid(c2["world"], q): return f"refused with {err!r} instead of invalid_scope: {where}"
