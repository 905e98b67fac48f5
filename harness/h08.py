from .jose import *
RULE = "header objects of every type and headers with parameters of every type; distinct by header"
V = [None, "", "a", "é", " ", 0, 1, True, False, [], ["a"], ["alg"], ["typ"], ["x"], ["alg", "alg"], ["alg", ""], ["alg", 1], [""], [None], [["alg"]], {}, {"a": 1}, 0.5, "alg", ["kid"], ["x", "typ"]]
def cases(g):
    for x in (None, {}, [], "alg", 5, [("alg", "HS256")], {"typ": "JWT"}, {"alg": None}, {"alg": ""}, {"alg": 0}, {"alg": "none"}, {"alg": "None"}, {"alg": "hs256"}, {"alg": "HS257"}, {"alg": "HS2560"}, {"alg": " HS256"}): yield dict(h=x)
    for a in ALGS + ["none", "HS1", "ES256K", "EdDSA", "RSA-OAEP", "NONE", "RS1", "ps256"]:
        yield dict(h={"alg": a})
        for k in ("kid", "typ", "cty", "crit", "x", "jku", "jwk", "b64", "x5c"):
            for v in V: yield dict(h={"alg": a, k: v})
    while True:
        h = {"alg": g.one(ALGS + ["none", "x", None, g.text()])} if g.maybe(0.95) else {}
        for k in g.r.sample(["kid", "typ", "cty", "crit", "x", "y"], g.int(0, 4)): h[k] = g.one(V + [g.json()])
        if g.maybe(0.4): h["crit"] = [g.one("alg", "kid", "typ", "x", "y", "zz", "", g.text()) for _ in range(g.int(1, 3))]
        yield dict(h=h)

def wrong(h):
    if not isinstance(h, dict) or not h: return "it is not a non-empty dictionary"
    if not isinstance(h.get("alg"), str) or h["alg"] not in ALGS + ["none"]: return f"its alg is {h.get('alg')!r}"
    for k in ("kid", "typ", "cty"):
        if k in h and not (isinstance(h[k], str) and h[k]): return f"its {k} is {h[k]!r}"
    if "crit" in h:
        c = h["crit"]
        if not isinstance(c, list) or not c or any(not isinstance(i, str) or not i for i in c): return f"its crit is {c!r}"
        for i in c:
            if not h.get(i): return f"its crit names {i!r}, which is absent or empty"

def judge(c):
    h = c["h"]
    st, r = outcome(JsonWebSignatureHeader, h)
    bad = wrong(h)
    if st == "ok":
        if bad: return f"header {h!r} was accepted although {bad}"
        if dict(r) != {k: v for k, v in h.items() if v is not None}: return f"header {h!r} is held as {dict(r)}"
        a = getattr(r, "algorithm", None)
        if getattr(a, "__algorithm__", None) != h["alg"]: return f"header {h!r} has the algorithm {a!r}"
    elif not bad: return f"the well-formed header {h!r} was rejected: {r!r}"
