from .world import *
RULE = "authorization code redemptions: valid ones and ones with one to three fields changed (code, client, URI, registration, verifier, method, challenge, expiry, user, scopes, time zone); distinct by world and request"
def cases(g):
    it = combos(g, CODE_SPEC)
    while True: yield build_code(next(it))

def judge(c):
    w, q = c["world"], c["req"]
    W, r = run_token(c)
    d = params(q)
    cr = created(W)
    code = w["codes"].get(d.get("code"))
    cl = next((e[1].get_client_id() for e in cr), None)
    isok = r.status == 200
    if not cr and not isok: return valid_refused(w, q, r, d, code)
    if d.get("grant_type") != "authorization_code": return None
    where = f"code {code}, request {d}, clients {w['clients']['c1']}, tz {c['tz']}"
    auth = ref_auth(w, q)[0]
    if code is None: return f"tokens for a code that does not exist: {where}"
    names = {e[1].get_client_id() for e in cr}
    if len(auth) == 1:
        me = next(iter(auth))
        if names - {me}: return f"tokens created for client {sorted(names)} but {me} asked: {where}"
        if code["client"] != me: return f"client {me} redeemed a code of {code['client']!r}: {where}"
        if d.get("redirect_uri") != code["uri"]: return f"redirect URI {d.get('redirect_uri')!r} differs from the code's {code['uri']!r}: {where}"
        if d.get("redirect_uri") not in w["clients"][me]["uris"]: return f"redirect URI {d.get('redirect_uri')!r} is not registered: {where}"
    if not isinstance(d.get("code_verifier"), str) or not pkce(code["method"], code["challenge"], d["code_verifier"]): return f"the PKCE verifier does not match: {where}"
    if code["ttl"] <= 0: return f"the code expired {-code['ttl']} s ago: {where}"
    if code["user"] not in w["users"]: return f"the user of the code does not exist: {where}"
    for e in cr:
        if getattr(e[2], "uid", None) != code["user"]: return f"{e[0]} for user {getattr(e[2], 'uid', e[2])!r}: {where}"
        if e[3] != code["scopes"]: return f"{e[0]} with scopes {e[3]}: {where}"
    na, nr = len(W.names("create_access")), len(W.names("create_refresh"))
    if isok:
        if na != 1: return f"{na} access tokens created: {where}"
        reg = "refresh_token" in w["clients"][cl]["grants"]
        if nr != (1 if reg else 0): return f"{nr} refresh tokens created, registered for refresh: {reg}: {where}"
        exp = dict(access_token="AT1", token_type="Bearer", expires_in=w["lifespan"])
        if reg: exp["refresh_token"] = "RT2"
        if code["scopes"]: exp["scope"] = " ".join(code["scopes"])
        j = js(r)
        if reg and isinstance(j, dict) and j.get("refresh_token") == "RT1": exp.update(refresh_token="RT1", access_token="AT2")
        if j != exp: return f"response {j}, expected {exp}: {where}"
    elif nr and "refresh_token" not in w["clients"][cl]["grants"]: return f"a refresh token for a client not registered for it: {where}"

def valid_refused(w, q, r, d, code):
    return None
