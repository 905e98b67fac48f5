from .world import *
RULE = "revocation requests with every credential kind, token, hint and place of the parameters; distinct by world and request"
SPEC = dict(
    token=(["TOK", "AT1"], ["", None, " ", TEXT]),
    hint=([None, "access_token", "refresh_token"], ["", "id_token", "Access_token", "access_token ", "access", "token", "a", TEXT]),
    auth=AUTHS,
    place=(["body"], ["query", "both"]),
    extra=([{}], [{"client_id": "c1"}, {"x": "y"}]),
    fault=([None], ["oauth", "invalid_request", "client"]),
)
def cases(g):
    it = combos(g, SPEC)
    while True:
        c = next(it)
        w = world()
        f = dict(token=c["token"], token_type_hint=c["hint"]); q = None
        if c["place"] == "query": q, f = f, {}
        elif c["place"] == "both": q = dict(token="QTOK", token_type_hint="refresh_token")
        yield dict(world=w, req=with_auth(w, c["auth"], {**f, **c["extra"]}, q, path="https://as.example/revoke"), fault=c["fault"])

def judge(c):
    w, q = c["world"], c["req"]
    W = World(w)
    if c.get("fault"):
        # the storage refuses the revocation itself with an OAuth error
        A = W.provider.adapter
        orig = A.revoke_token
        async def rv(*a, **k):
            await orig(*a, **k); raise FAULTS[c["fault"]]()
        A.revoke_token = rv
    r = W.call("revoke", q)
    f = form(q)
    revs = W.names("revoke")
    ok, definite = ref_auth(w, q)
    tok, hint = f.get("token"), f.get("token_type_hint")
    where = f"form {f}, headers {q['headers']}, url {q['url']!r}, client {w['clients']['c1']['auth']}, answer {r}"
    if len(revs) > 1: return f"{len(revs)} revocations: {where}"
    for e in revs:
        if e[1].get_client_id() not in ok: return f"revoked for client {e[1].get_client_id()!r}, the request proves {sorted(ok)}: {where}"
        if e[2] != tok or (e[3] or None) != hint: return f"revoked {e[2]!r} with hint {e[3]!r}: {where}"
        if not tok: return f"revoked without a token: {where}"
        if hint and hint not in ("access_token", "refresh_token"): return f"revoked with the unsupported hint {hint!r}: {where}"
    if r.raised is not None: return f"raised {r.raised!r}: {where}"
    if not isinstance(r.raw, Response): return f"the endpoint returned {r.raw!r}: {where}"
    if {k.lower(): v for k, v in r.headers.items()}.get("content-type") != "application/json": return f"not a JSON response: {where}"
    try: json.loads(r.body)
    except Exception: return f"the body {r.body!r} is not JSON: {where}"
    if not ok and r.status != 401: return f"status {r.status} without authentication: {where}"
    if c.get("fault") and revs: return None
    if ok and definite:
        if not tok: want = 200
        elif hint and hint not in ("access_token", "refresh_token"): want = 400
        else:
            want = 200
            if not revs: return f"nothing was revoked: {where}"
        if r.status != want: return f"status {r.status} instead of {want}: {where}"
    if r.status == 401 and (js(r) or {}).get("error") != "invalid_client": return f"401 without invalid_client: {where}"
