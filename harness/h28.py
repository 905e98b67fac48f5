from .world import *
from .keys import *
from .keys import ub as _ub
RULE = "redemptions of codes with and without openid, nonce and userinfo, signed with every algorithm, under several time zones; distinct by world and request"
def cases(g):
    sc = [["openid"], ["profile"], ["openid", "profile"], ["profile", "openid"], ["openid2"], ["xopenid"], ["profile", "my-openid"], [], ["OpenID"], ["openid.x", "email"], ["email", "openid", "profile"]]
    P = pool()
    def mk(scopes, nonce, alg, ui, tz, life, cid="c1"):
        w = world(id_lifespan=life, alg=alg, issuer="https://as.example")
        w["codes"] = {"CODE": dict(client=cid, user="u1", uri=w["clients"][cid]["uris"][0], scopes=scopes, challenge=s256(VER), method="S256", ttl=3600, nonce=nonce)}
        if ui is not None: w["userinfo"] = ui
        k = {**P[fam(alg)][0], "kid": "key1"}
        return dict(world=w, key=k, req=req(dict(grant_type="authorization_code", code="CODE", redirect_uri=w["clients"][cid]["uris"][0], code_verifier=VER), cid=cid, secret=w["clients"][cid]["secret"]), tz=tz)
    for s in sc:
        for n in (None, "n1", "é n"): yield mk(s, n, "HS256", None, None, 3600)
    for a in ALGS: yield mk(["openid"], "n", a, {"sub": "u1", "email": "e"}, None, 60)
    for tz in TZS: yield mk(["openid"], "n", "ES256", None, tz, 60)
    while True:
        ui = {"sub": g.text(nonempty=True)}
        for _ in range(g.int(0, 3)):
            k = g.text(nonempty=True)
            if k not in ("iss", "aud", "exp", "iat", "at_hash", "nonce", "nbf", "jti", "auth_time", "max_age", "sub"): ui[k] = g.json()
        yield mk(g.one(sc) if g.maybe(0.7) else g.r.sample(["openid", "a", "b", "openid_x"], g.int(0, 4)), g.one(None, g.text(nonempty=True), "n"), g.one("HS256", "HS384", "HS512", "ES256", g.one(ALGS)), g.one(None, ui, ui), g.one(TZS), g.one(1, 60, 3600, 86400, 0x7fffffff), g.one("c1", "c1", "c2"))

def judge(c):
    from psion.jose.jwk import JsonWebKey
    from psion.oidc.flows.authorization_code import AuthorizationCodeFlow
    w, q, key = c["world"], c["req"], c["key"]
    with Tz(c["tz"]):
        W = World(w, keys=JsonWebKey(dict(key)))
        W.provider.add_hook(AuthorizationCodeGrant, AuthorizationCodeFlow)
        t0 = int(time.time())
        r = W.call("token", q)
        t1 = int(time.time())
    code = w["codes"]["CODE"]
    j = js(r)
    where = f"scopes {code['scopes']}, nonce {code['nonce']!r}, alg {w['alg']}, tz {c['tz']}, answer {r}"
    if r.raised is not None or r.status != 200:
        return f"the redemption failed: {where}"
    if ("id_token" in j) != ("openid" in code["scopes"]): return f"ID token {'issued' if 'id_token' in j else 'missing'}: {where}"
    if "id_token" not in j: return None
    parts = j["id_token"].split(".")
    if len(parts) != 3: return f"malformed ID token: {where}"
    h, p = json.loads(_ub(parts[0])), json.loads(_ub(parts[1]))
    if h.get("alg") != w["alg"] or h.get("kid") != "key1": return f"ID token header {h}: {where}"
    if not ref_verify(key, w["alg"], f"{parts[0]}.{parts[1]}".encode(), _ub(parts[2])): return f"the ID token is not signed with the configured key and algorithm: {where}"
    hh = hashlib.new("sha" + w["alg"][2:], j["access_token"].encode()).digest()
    cid = code["client"]
    exp = dict(w.get("userinfo", {"sub": "u1"}))
    exp.update(iss=w["issuer"], aud=cid, at_hash=base64.urlsafe_b64encode(hh[: len(hh) // 2]).rstrip(b"=").decode())
    if code["nonce"]: exp["nonce"] = code["nonce"]
    got = dict(p)
    iat, ex = got.pop("iat", None), got.pop("exp", None)
    exp = {k: v for k, v in exp.items() if v is not None}
    if type(iat) is not int or not t0 <= iat <= t1: return f"iat {iat} instead of {t0}: {where}"
    if type(ex) is not int or not t0 + w["id_lifespan"] <= ex <= t1 + w["id_lifespan"]: return f"exp {ex} instead of {t0 + w['id_lifespan']}: {where}"
    if got != exp: return f"ID token claims {got}, expected {exp}: {where}"
    ui = W.names("userinfo")
    if len(ui) < 1 or getattr(ui[0][1], "uid", None) != code["user"] or set(ui[0][2]) != set(code["scopes"]): return f"userinfo asked for {ui}: {where}"
