from .world import *
RULE = "sequences of one to four token requests to one provider, with recording grants that succeed or raise every OAuth error; distinct by sequence"
ERRS = ["InvalidRequest", "InvalidClient", "InvalidGrant", "UnauthorizedClient", "AccessDenied", "UnsupportedResponseType", "UnsupportedGrantType", "UnsupportedTokenType", "InvalidScope", "ServerError", "TemporarilyUnavailable"]

def cases(g):
    its = [(combos(g, CODE_SPEC), build_code), (combos(g, RT_SPEC), build_rt), (combos(g, CC_SPEC), build_cc)]
    def rec(e, hdr=None):
        w = world(); w["clients"]["c1"]["grants"] = ["rec"]
        return w, with_auth(w, "basic", {"grant_type": "rec", "err": e, "hdr": hdr})
    for e in ERRS + ["ok", "fatal"]:
        for h in (None, "X-Leak"):
            w, q = rec(e, h); _, q2 = rec("ok")
            yield dict(world=w, reqs=[q, q2, q])
    while True:
        for it, b in its:
            c = b(next(it))
            yield dict(world=c["world"], reqs=[c["req"]], tz=c["tz"])
            k = with_auth(copy.deepcopy(c["world"]), g.one(["wrong", "basic", "absent", "nouser", "case"]), dict(grant_type=g.one("client_credentials", "refresh_token", "authorization_code"), refresh_token="RTOK"))
            yield dict(world=c["world"], reqs=[k, c["req"], k], tz=c["tz"])
        w, _ = rec("ok")
        qs = [rec(g.one(ERRS + ["ok", "ok", "fatal"]), g.one(None, "X-A", "X-B"))[1] for _ in range(g.int(1, 3))]
        if g.maybe(0.3): qs.append(dict(method=g.one("GET", "POST"), url="https://as.example/token" + g.one("", "?", "?a=b", "?grant_type=rec"), headers=g.one({}, {"Authorization": g.text()}), body=g.one([None, b"", b"\xff\xfe", b"grant_type", b"grant_type=", b"grant_type=rec&client_id=c1", g.bytes_()]), user=None))
        yield dict(world=w, reqs=qs)

def grant(log):
    import psion.oauth2.exceptions as X
    class R(BaseGrant):
        __grant_type__ = "rec"
        async def token(self, data, client):
            e = data.get("err")
            log.append(e)
            h = {data["hdr"]: "1"} if data.get("hdr") else None
            if e == "ok": return {"access_token": "REC", "n": len(log)}
            if e == "fatal": raise X.FatalError(error="boom", description="d", headers=h)
            raise getattr(X, e)(description="d", headers=h)
    return R

BASEH = {"content-type", "cache-control", "pragma"}
def one(W, q, log, first):
    n = len(log)
    try: W.request(q)
    except Exception: return None
    m = len(W.log)
    r = W.call("token", q)
    ran = log[n:]
    where = f"request {q['url']!r} {q['headers']} {q['body']!r} (request {first} of the sequence)"
    if r.raised is not None: return f"the endpoint raised {r.raised!r}: {where}"
    if not isinstance(r.raw, Response): return f"the endpoint returned {r.raw!r}: {where}"
    if r.status not in (200, 400): return f"status {r.status}: {where}"
    h = {k.lower(): v for k, v in r.headers.items()}
    if h.get("cache-control") != "no-store" or h.get("pragma") != "no-cache" or h.get("content-type") != "application/json": return f"headers {r.headers}: {where}"
    j = js(r)
    if not isinstance(j, dict): return f"the body {r.body!r} is not a JSON object: {where}"
    if r.status == 400 and (not isinstance(j.get("error"), str) or "access_token" in j): return f"status 400 with body {j}: {where}"
    if r.status == 200 and "error" in j: return f"status 200 with an error {j}: {where}"
    extra = set(h) - BASEH
    own = {params(q).get("hdr", "").lower()} if ran else set()
    if "www-authenticate" in extra and not basic(q): return f"WWW-Authenticate answered to a request without Basic credentials: {where}"
    if extra - own - {"www-authenticate"}: return f"headers {sorted(extra)} do not belong to this request: {where}"
    if ran == ["ok"] and (r.status != 200 or j != {"access_token": "REC", "n": len(log)}): return f"the grant returned its response but the answer is {r}: {where}"
    if ran and ran != ["ok"] and r.status != 400: return f"the grant raised {ran} but the answer is {r}: {where}"
    if r.status == 200 and not ran and not [e for e in W.log[m:] if e[0] == "create_access"]: return f"status 200 though no grant ran to the end: {r}: {where}"
    return None

def judge(c):
    log = []
    with Tz(c.get("tz")):
        W = World(c["world"], extra_grants=[grant(log)])
        for i, q in enumerate(c["reqs"]):
            r = one(W, q, log, i + 1)
            if r: return r
        W2 = World(world())
        r = one(W2, dict(method="POST", url="https://as.example/token", headers={}, body=b"grant_type=client_credentials", user=None), [], "last, another provider")
        if r: return r
