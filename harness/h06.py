from .jose import *
RULE = "claims with one to three validation options in every order; distinct by claims and options"
CL = ["iss", "sub", "aud", "role", "n", "x"]
def val(g): return g.one(["a", "b", "c", "", 0, 1, 2, False, True, ["a"], ["b", "c"], [], {}, {"k": 1}, "abc", 0.5, g.text(), g.json()])
def cases(g):
    vals = ["a", "", 0, False, ["a"], ["b", "z"], [], "abc", 1, None, "missing"]
    opts = [{"essential": True}, {"essential": False}, {"value": "a"}, {"value": ""}, {"value": 0}, {"value": False}, {"value": ["a"]}, {"value": []}, {"values": ["a", "b"]}, {"values": [0]}, {"values": [["a"]]}, {"values": [""]}, {"essential": True, "values": ["a"]}, {"essential": True, "value": "a"}, {"values": ["b"], "value": "a"}, {"values": [False, "a"]}, {}, None]
    for v in vals:
        for o in opts:
            for other in ({}, {"sub": {"value": "s"}}, {"sub": {"value": "bad"}}, {"sub": {"values": ["s"]}}):
                cl = {"sub": "s"}
                if v != "missing": cl["x"] = v
                yield dict(claims=cl, options=[("x", o)] + list(other.items()))
    while True:
        cl = {"sub": g.one("a", "b", "")}
        for k in g.r.sample(CL[3:], g.int(0, 3)): cl[k] = val(g)
        if g.maybe(0.5): cl["aud"] = g.one(["a"], ["b", "c"], "a", "b", [])
        if g.maybe(0.5): cl["iss"] = g.one("a", "b", "")
        os_ = []
        for k in g.r.sample(CL, g.int(1, 3)):
            o = {}
            if g.maybe(0.4): o["essential"] = g.maybe(0.8)
            if g.maybe(0.4): o["value"] = cl.get(k) if g.maybe(0.5) else val(g)
            if g.maybe(0.4):
                o["values"] = [val(g) for _ in range(g.int(1, 3))]
                if g.maybe(0.5) and cl.get(k) is not None: o["values"].insert(g.int(0, len(o["values"])), cl[k][-1] if isinstance(cl[k], list) and cl[k] else cl[k])
            os_.append((k, o))
        yield dict(claims=cl, options=os_)

def want(cl, opts):
    for k, o in opts.items():
        if not isinstance(o, dict): continue
        v = cl.get(k)
        if o.get("essential") and v is None: return f"{k} is essential and missing"
        if o.get("value") is not None and not (v == o["value"]): return f"{k} is {v!r}, expected {o['value']!r}"
        if o.get("values"):
            if isinstance(v, list) and any(i in o["values"] for i in v): continue
            if v not in o["values"]: return f"{k} is {v!r}, expected one of {o['values']}"

def judge(c):
    import itertools
    cl = c["claims"]
    if outcome(JsonWebTokenClaims, dict(cl))[0] != "ok": return None
    k = key_of(pool()["oct"][0])
    for perm in itertools.permutations(c["options"]):
        opts = dict(perm)
        why = want(cl, opts)
        for what, f in (("claims", lambda: JsonWebTokenClaims(dict(cl), dict(opts))), ("decode", lambda: JsonWebToken.decode(mk({"alg": "HS256"}, json.dumps(cl).encode(), pool()["oct"][0]), k, options=dict(opts)))):
            st, r = outcome(f)
            if st == "ok" and why: return f"{what}: accepted although {why}: claims {cl}, options {opts}"
            if st != "ok" and not why: return f"{what}: rejected with {r!r} although every option is satisfied: claims {cl}, options {opts}"
