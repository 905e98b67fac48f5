from .world import *
RULE = "client credentials requests: valid ones and ones with one to three fields changed; distinct by world and request"
def cases(g):
    it = combos(g, CC_SPEC)
    while True: yield build_cc(next(it))

def judge(c):
    w, q = c["world"], c["req"]
    W, r = run_token(c)
    d = params(q)
    if d.get("grant_type") != "client_credentials": return None
    cr = created(W)
    where = f"request {d} {q['headers']}, client {w['clients']['c1']}, server scopes {w['scopes']}"
    if W.names("create_refresh"): return f"a refresh token was created: {where}"
    j = js(r)
    if isinstance(j, dict) and "refresh_token" in j: return f"a refresh token is returned: {where}"
    if not cr and r.status != 200: return valid_refused(w, q, r, d, where)
    ok = ref_auth(w, q, GM["cc"])[0]
    if not ok: return f"a client that did not authenticate with a secret got {cr}: {where}"
    if len(cr) != 1 and r.status == 200: return f"{len(cr)} tokens created: {where}"
    e = cr[0]
    cid = e[1].get_client_id()
    if cid not in ok: return f"token for client {cid}: {where}"
    if e[2] is not e[1]: return f"the resource owner is {e[2]!r}, not the client: {where}"
    C = w["clients"][cid]
    rs = d["scope"].split() if d.get("scope") else None
    if rs is not None:
        bad = [s for s in rs if s not in w["scopes"] or s not in C["scopes"]]
        if bad: return f"scopes {bad} are not supported or not allowed and were not refused: {where}"
        if set(e[3] or ()) != set(rs): return f"token scopes {e[3]} instead of the requested {rs}: {where}"
    elif set(e[3] or ()) != set(C["default"]): return f"token scopes {e[3]} instead of the default {C['default']}: {where}"
    if r.status == 200 and (j.get("access_token") != "AT1" or j.get("token_type") != "Bearer" or j.get("expires_in") != w["lifespan"]): return f"response {j}: {where}"
    if r.status == 200 and "scope" in j and j["scope"].split() != e[3]: return f"response scope {j['scope']!r}, token scopes {e[3]}: {where}"
    if r.status == 200 and "scope" not in j and e[3] and rs is None: return f"default scopes were granted and not reported: {j}: {where}"

def valid_refused(w, q, r, d, where): return None
