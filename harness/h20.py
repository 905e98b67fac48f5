from .world import *
RULE = "refresh requests: valid ones and ones with one to three fields changed (token, client, expiry, user, original scopes, requested scope, allowed scopes, time zone); distinct by world and request"
def cases(g):
    it = combos(g, RT_SPEC)
    while True: yield build_rt(next(it))

def judge(c):
    w, q = c["world"], c["req"]
    W, r = run_token(c)
    d = params(q)
    cr = created(W)
    if d.get("grant_type") != "refresh_token": return None
    rt = w["rts"].get(d.get("refresh_token"))
    where = f"token {rt}, request {d}, client {w['clients']['c1']}, server scopes {w['scopes']}, tz {c['tz']}"
    if not cr and r.status != 200: return None
    if rt is None: return f"tokens for a refresh token that does not exist: {where}"
    auth = ref_auth(w, q)[0]
    cl = cr[0][1].get_client_id() if cr else None
    if len(auth) == 1:
        me = next(iter(auth))
        if {e[1].get_client_id() for e in cr} - {me}: return f"tokens created for {cl}: {where}"
        if rt["client"] != me: return f"client {me} used a refresh token of {rt['client']!r}: {where}"
    if rt["ttl"] <= 0: return f"the refresh token expired {-rt['ttl']} s ago: {where}"
    if rt["user"] not in w["users"]: return f"the user does not exist: {where}"
    C = w["clients"][cl]
    rs = d["scope"].split() if d.get("scope") else None
    if rs:
        bad = [s for s in rs if s not in rt["scopes"] or s not in w["scopes"] or s not in C["scopes"]]
        if bad: return f"the request names {bad}, which is outside the original grant, unknown to the server or not allowed to the client, and was not refused: {where}"
    want = set(rs) if rs else {s for s in rt["scopes"] if s in C["scopes"]}
    for e in cr:
        if getattr(e[2], "uid", None) != rt["user"]: return f"{e[0]} for user {getattr(e[2], 'uid', e[2])!r}: {where}"
        got = set(e[3] or ())
        if not got <= set(rt["scopes"]) or not got <= set(C["scopes"]): return f"{e[0]} with scopes {e[3]} outside the original grant or the client's scopes: {where}"
        if rs and not got <= set(rs): return f"{e[0]} with scopes {e[3]} beyond the requested {rs}: {where}"
    if r.status == 200:
        j = js(r)
        toks = {e[0] for e in cr}
        if not isinstance(j, dict) or j.get("token_type") != "Bearer" or j.get("access_token") not in ("AT1", "AT2"): return f"response {j}: {where}"
        if "scope" in j:
            if set(j["scope"].split()) != set(cr[0][3] or ()): return f"response reports scope {j['scope']!r}, the tokens have {cr[0][3]}: {where}"
        elif set(cr[0][3] or ()) != set(rt["scopes"]) and cr[0][3]: return f"the scopes changed from {rt['scopes']} to {cr[0][3]} and the response does not say so: {where}"
