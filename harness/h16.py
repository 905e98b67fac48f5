from .world import *
RULE = "token requests for every grant type, credential kind and registration, with recording grants; distinct by world and request"

def cases(g):
    its = [combos(g, CODE_SPEC), combos(g, RT_SPEC), combos(g, CC_SPEC)]
    builds = [build_code, build_rt, build_cc]
    for kind in AUTHS[0] + AUTHS[1]:
        for gm in (None, [], ["client_secret_basic"], ["client_secret_post"], ["none"], ["client_secret_basic", "client_secret_post"]):
            for reg in (["rec"], ["authorization_code"], [], ["recx"], ["rec", "other"]):
                for gt in ("rec", "other"):
                    w = world(); w["clients"]["c1"]["grants"] = reg
                    yield dict(rec=True, world=w, req=with_auth(w, kind, {"grant_type": gt}), methods=gm, tz=None)
    while True:
        for it, b in zip(its, builds): yield b(next(it))
        w = world()
        w["clients"]["c1"]["grants"] = g.one([["rec"], ["authorization_code"], [], ["rec", "other"], ["re", "c"], ["client_credentials"], ["other"]])
        f = {"grant_type": g.one("rec", "rec", "rec", "other", "client_credentials", "re", "REC", None, g.text())}
        for _ in range(g.int(0, 3)): f.setdefault(g.text(nonempty=True), g.text())
        yield dict(rec=True, world=w, req=with_auth(w, g.one(AUTHS[0] + AUTHS[0] + AUTHS[1]), f), methods=g.one([None, ["client_secret_basic"], ["client_secret_post"], ["none"], []]), tz=None)

def judge(c):
    w, q = c["world"], c["req"]
    if c.get("rec"):
        runs = []
        class G1(BaseGrant):
            __grant_type__ = "rec"; __authentication_methods__ = c["methods"]
            async def token(self, data, client): runs.append(("rec", client.get_client_id(), dict(data))); return {"access_token": "REC"}
        class G2(BaseGrant):
            __grant_type__ = "other"; __authentication_methods__ = ["none"]
            async def token(self, data, client): runs.append(("other", client.get_client_id(), dict(data))); return {"access_token": "OTH"}
        W = World(w, extra_grants=[G1, G2])
        r = W.call("token", q)
        gt = params(q).get("grant_type")
        meth = {"rec": c["methods"], "other": ["none"], "client_credentials": GM["cc"]}.get(gt)
        configured = gt in ("rec", "other", "client_credentials", "authorization_code", "refresh_token")
        ok, definite = ref_auth(w, q, meth) if configured else (set(), True)
        allowed = {x for x in ok if gt in w["clients"][x]["grants"]}
        where = f"grant_type {gt!r}, {q['headers']}, {q['body']!r}, registered {w['clients']['c1']['grants']}, auth {w['clients']['c1']['auth']!r}, allowed methods {meth}"
        for n, cid, data in runs:
            if n != gt or cid not in allowed: return f"grant {n!r} was run for client {cid!r}, which is not entitled: {where}"
            exp = params(q); exp.pop("grant_type")
            if data != exp: return f"grant was run with data {data}, the request has {exp}: {where}"
        if len(runs) > 1: return f"the grant was run {len(runs)} times: {where}"
        if r.raised is not None: return f"the endpoint raised {r.raised!r}: {where}"
        if gt in ("rec", "other"):
            if not runs and allowed and definite: return f"an entitled client {allowed} was refused: {r}: {where}"
            if runs and (r.status != 200 or js(r) != {"access_token": {"rec": "REC", "other": "OTH"}[gt]}): return f"the grant ran but the answer is {r}"
        if not runs and not created(W) and r.status == 200: return f"status 200 without a grant having run: {r}: {where}"
        return None
    W, r = run_token(c)
    gt = params(q).get("grant_type")
    kinds = [k for k in w["grants"] if GT[k] == gt]
    ok = set()
    if kinds: ok = {x for x in ref_auth(w, q, GM[kinds[0]])[0] if gt in w["clients"][x]["grants"]}
    cr = created(W)
    if cr or (r.status == 200):
        bad = [e for e in cr if e[1].get_client_id() not in ok]
        if not ok or bad: return f"a token was issued ({[(e[0], e[1].get_client_id()) for e in cr]}) though the entitled clients are {sorted(ok)}: grant_type {gt!r}, {q['headers']}, {q['body']!r}"
    if not ok:
        if r.raised is not None: return f"the endpoint raised {r.raised!r} instead of answering"
        j = js(r)
        if not isinstance(j, dict) or not j.get("error"): return f"the answer is not an OAuth error: {r}"
