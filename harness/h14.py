from .world import *
from psion.oauth2.authentication import ClientAuthentication
RULE = "requests with right, wrong, missing or misplaced credentials against a registry of clients; distinct by client registry, request and allowed methods"
METHODS = [None, [], ["client_secret_basic"], ["client_secret_post"], ["none"], ["client_secret_basic", "client_secret_post"], ["none", "client_secret_post"], ["client_secret_basic", "none"], ["private_key_jwt"]]

def cases(g):
    for kind in AUTHS[0] + AUTHS[1]:
        for m in METHODS:
            w = world()
            r = with_auth(w, kind, {})
            yield dict(world=w, req=r, methods=m)
    while True:
        w = world()
        sec = g.one([g.text(nonempty=True), g.word(), "a:b", ":x", "é", None])
        c = w["clients"]["c1"]
        c["secret"] = sec
        c["auth"] = g.one("client_secret_basic", "client_secret_post", "none", "Client_secret_basic", "private_key_jwt", None, "client_secret")
        cid = g.one("c1", "c1", "c1", "c2", "ghost", "C1")
        s = g.one(sec, sec, sec, g.text(), (sec or "x") + "x", (sec or "xy")[1:], (sec or "").swapcase(), "None", None)
        how = g.one("basic", "post", "none", "query", "absent", "both", "split")
        if how == "both":
            r = req({}, cid=cid, secret=s)
            r["body"] = urlencode({k: v for k, v in dict(client_id=g.one("c1", "c2", cid), client_secret=g.one(s, sec, None)).items() if v is not None}).encode()
        elif how == "split":
            r = req({"client_id": cid}, {"client_secret": s} if s is not None else {}, how="absent")
        else: r = req({}, cid=cid, secret=s, how=how)
        if g.maybe(0.1): r["headers"] = {"Authorization": g.one("Basic", "Basic ", "Basic é", "Bearer abc", "basic !!!!", "Basic " + b64("nocolon"), "Basic " + b64("c1:"), "Basic " + b64(":s"), g.text())}
        yield dict(world=w, req=r, methods=g.one(METHODS))

def judge(c):
    w, q, m = c["world"], c["req"], c["methods"]
    W = World(w)
    rq = W.request(q)
    a = ClientAuthentication(W.provider.adapter.find_client)
    st, r = outcome(lambda: drive(a(rq, m)))
    ok, definite = ref_auth(w, q, m)
    where = f"registry {w['clients']['c1']['auth']!r}/{w['clients']['c1']['secret']!r}, headers {q['headers']}, body {q['body']!r}, url {q['url']!r}, methods {m}"
    if st == "ok":
        cid = getattr(r, "cid", None)
        if cid not in ok: return f"authenticated as {cid!r} though the request proves {sorted(ok)}: {where}"
        return None
    if not isinstance(r, InvalidClient): return f"raised {r!r} instead of invalid_client: {where}"
    if ok and definite: return f"refused a request that proves client {sorted(ok)}: {where}"
