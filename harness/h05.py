from .jose import *
from .world import Tz, TZS
import time
RULE = "claims with exp, nbf and iat at offsets from the current time (boundaries included) and absolute values, under several host time zones; distinct by offsets and zone"
OFF = [-10**12, -10**9, -86400, -50400, -36000, -32400, -3600, -61, -2, -1, 0, 3, 60, 3600, 32400, 36000, 50400, 86400, 10**9]
def cases(g):
    for tz in TZS:
        for k in ("exp", "nbf", "iat"):
            for o in OFF: yield dict(tz=tz, off={k: o}, abs={})
            for v in (0, -1, 1, 2**31, 2**63): yield dict(tz=tz, off={}, abs={k: v})
    while True:
        d = dict(tz=g.one(TZS), off={}, abs={})
        for k in g.r.sample(["exp", "nbf", "iat"], g.int(1, 3)):
            if g.maybe(0.8): d["off"][k] = g.one(OFF) if g.maybe(0.6) else g.int(-10**5, 10**5)
            else: d["abs"][k] = g.integer()
        d["via"] = g.one("claims", "jwt", "id")
        yield d

def judge(c):
    from psion.oidc.claims import IDToken
    with Tz(c["tz"]):
        t0 = int(time.time())
        cl = {"sub": "x", **{k: t0 + o for k, o in c["off"].items()}, **c["abs"]}
        via = c.get("via", "claims")
        if via == "jwt":
            k = key_of(pool()["oct"][0])
            tok = mk({"alg": "HS256"}, json.dumps(cl).encode(), pool()["oct"][0])
            st, r = outcome(JsonWebToken.decode, tok, k)
        else: st, r = outcome(IDToken if via == "id" else JsonWebTokenClaims, cl)
        t1 = time.time()
    where = f"claims {cl} at time {t0} ({via}, zone {c['tz']})"
    if st == "ok":
        if "exp" in cl and cl["exp"] <= t0: return f"expired claims were accepted: {where}"
        if "nbf" in cl and cl["nbf"] > t1: return f"claims were accepted before nbf: {where}"
        if "iat" in cl and cl["iat"] > t1: return f"claims issued in the future were accepted: {where}"
    else:
        inside = ("exp" not in cl or cl["exp"] > t1 + 1) and ("nbf" not in cl or cl["nbf"] <= t0) and ("iat" not in cl or cl["iat"] <= t0)
        if inside: return f"claims inside their window were rejected with {r!r}: {where}"
