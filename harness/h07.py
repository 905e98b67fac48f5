from .jose import *
import time
RULE = "claims objects of every type and claims with values of every type; distinct by claims"
REG = ["exp", "iat", "nbf", "iss", "sub", "jti", "aud"]
FAR = 2 ** 40
GOODV = {"exp": [FAR, 2 ** 33], "iat": [0, 1, -5], "nbf": [0, 1, -1], "iss": ["", "a"], "sub": ["", "é"], "jti": ["j"], "aud": ["", "a", [], ["a"], ["a", "b"], [""]]}
BADV = [0, 1, True, False, 1.5, 0.0, "", "a", "123", [], ["a"], [1], ["a", None], ["a", ["b"]], [None], {}, {"a": 1}, b"x", FAR, float(FAR), -1]
def cases(g):
    for x in (None, {}, [], [1], "", "a", 5, 0, True, [("sub", "a")], b"{}", ()): yield dict(claims=x)
    for k in REG:
        for v in GOODV[k] + BADV + [None]: yield dict(claims={k: v}); yield dict(claims={"x": 1, k: v})
    while True:
        cl = {}
        for k in g.r.sample(REG, g.int(0, 5)): cl[k] = g.one(GOODV[k]) if g.maybe(0.75) else g.one(BADV + [None, g.json()])
        for _ in range(g.int(0, 3)): cl[g.text()] = g.json()
        yield dict(claims=cl)

def typed(cl):
    for k in ("exp", "iat", "nbf"):
        if cl.get(k) is not None and type(cl[k]) is not int: return f"{k} is {cl[k]!r}"
    for k in ("iss", "sub", "jti"):
        if cl.get(k) is not None and not isinstance(cl[k], str): return f"{k} is {cl[k]!r}"
    a = cl.get("aud")
    if a is not None and not (isinstance(a, str) or isinstance(a, list) and all(isinstance(i, str) for i in a)): return f"aud is {a!r}"

def judge(c):
    cl = c["claims"]
    before = repr(cl)
    t = time.time()
    st, r = outcome(JsonWebTokenClaims, cl)
    bad = "it is not a non-empty dictionary" if not cl or not isinstance(cl, dict) else typed(cl)
    if st == "ok":
        if bad: return f"claims {cl!r} were accepted although {bad}"
        exp = {k: v for k, v in cl.items() if v is not None}
        if dict(r) != exp or any(type(dict(r)[k]) is not type(v) for k, v in exp.items()): return f"claims {cl!r} are held as {dict(r)}"
        if repr(cl) != before: return f"the given claims were changed from {before} to {cl!r}"
    elif not bad:
        g = lambda k: cl.get(k)
        timely = (g("exp") is None or g("exp") > t + 5) and (g("nbf") is None or g("nbf") < t - 5) and (g("iat") is None or g("iat") < t - 5)
        if timely: return f"well-typed claims {cl!r} were rejected: {r!r}"
    elif bad and name(r) not in ("InvalidJWTClaim", "ExpiredToken", "NotYetValidToken", "InvalidToken") and not isinstance(r, (TypeError, ValueError)): pass
