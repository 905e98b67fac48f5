from .jose import *
from .h07 import GOODV, BADV, REG, typed
from .h06 import want
import time
from psion.oidc.claims import IDToken
RULE = "ID token claims with auth_time, nonce, max_age and registered claims of every type, with and without an expected nonce and options; distinct by claims and options"
def cases(g):
    for v in GOODV["iat"] + BADV + [None, 10 ** 12]:
        yield dict(claims={"sub": "x", "auth_time": v}, options=None); yield dict(claims={"auth_time": v}, options={"nonce": "n"})
    for n in ("n", "", None, "m", 0, 1, ["n"], "missing"):
        for e in ("n", "m", "", None, "N", "n "):
            cl = {"sub": "x"}
            if n != "missing": cl["nonce"] = n
            yield dict(claims=cl, options={"nonce": e})
            yield dict(claims=cl, options={"nonce": e, "sub": {"value": "x"}}); yield dict(claims=cl, options={"sub": {"value": "y"}, "nonce": e})
    for x in (None, {}, [], "a", 0): yield dict(claims=x, options=None)
    for k in REG:
        for v in BADV: yield dict(claims={"sub": "s", k: v}, options=None)
    while True:
        cl = {"sub": g.text()}
        for k in g.r.sample(REG, g.int(0, 4)): cl[k] = g.one(GOODV[k]) if g.maybe(0.8) else g.one(BADV + [None])
        if g.maybe(0.6): cl["auth_time"] = g.one(0, 1, 10**9, g.integer(), None, g.one(BADV))
        if g.maybe(0.6): cl["nonce"] = g.one("n", g.text(), g.json())
        if g.maybe(0.2): cl["max_age"] = g.one(0, 60, None)
        o = None
        if g.maybe(0.7): o = {"nonce": g.one("n", cl.get("nonce"), g.text(), None)}
        if g.maybe(0.3): o = {**(o or {}), "sub": {"value": g.one(cl["sub"], "zz")}}
        yield dict(claims=cl, options=o)

def wrong(cl, o):
    if not isinstance(cl, dict) or not cl: return "it is not a non-empty dictionary"
    t = typed(cl)
    if t: return t
    a = cl.get("auth_time")
    if a is not None and type(a) is not int: return f"auth_time is {a!r}"
    n = (o or {}).get("nonce")
    if isinstance(n, str) and n and cl.get("nonce") != n: return f"nonce is {cl.get('nonce')!r}, expected {n!r}"
    return want(cl, {k: v for k, v in (o or {}).items() if k != "nonce" or isinstance(v, dict)})

def judge(c):
    cl, o = c["claims"], c["options"]
    if isinstance((o or {}).get("nonce"), (dict, list)) : return None
    t = time.time()
    st, r = outcome(IDToken, cl, o)
    bad = wrong(cl, o)
    if st == "ok":
        if bad: return f"ID token claims {cl!r} with options {o} were accepted although {bad}"
        if cl.get("exp") is not None and cl["exp"] <= int(t): return f"expired ID token claims {cl} were accepted"
        if (cl.get("nbf") or 0) > t + 5 or (cl.get("iat") or 0) > t + 5: return f"future ID token claims {cl} were accepted"
        if dict(r) != {k: v for k, v in cl.items() if v is not None}: return f"claims {cl} are held as {dict(r)}"
        return None
    if bad: return None
    timely = (cl.get("exp") is None or cl["exp"] > t + 5) and (cl.get("nbf") is None or cl["nbf"] < t - 5) and (cl.get("iat") is None or cl["iat"] < t - 5)
    if timely and not (cl.get("max_age") and not cl.get("auth_time")): return f"valid ID token claims {cl!r} with options {o} were rejected: {r!r}"
