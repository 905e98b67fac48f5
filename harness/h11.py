from .jose import *
RULE = "lists of keys with equal, missing and odd IDs; key set documents of every shape; distinct by case"
KID = [None, "a", "b", "c", "", "A", "é", 1, "1"]
def cases(g):
    o = lambda kid: ({"kty": "oct", "k": u(bytes([7]) * 32), **({"kid": kid} if kid is not None else {})})
    for x in ([], None, (), "x", {}, [None], ["k"], [{"kty": "oct", "k": "AA", "kid": "a"}]): yield dict(kind="raw", keys=x)
    for a in KID:
        yield dict(kind="set", keys=[o(a)], q=["a", "zz", None, a])
        for b in KID: yield dict(kind="set", keys=[o(a), o(b)], q=[a, b, "zz"])
        for x in ({"use": "enc"}, {"use": "sig"}, {"key_ops": ["encrypt"]}, {"alg": "HS256"}):
            for b in KID[:3]: yield dict(kind="set", keys=[{**o(a), **x}, o(b)], q=[a, b, "zz"]); yield dict(kind="set", keys=[o(a), {**o(b), **x}], q=[a, b, "zz"])
    for x in ({}, None, [], "keys", {"keys": []}, {"keys": [o("a")]}, {"keys": [o("a"), o("b")]}, {"keys": [o("b"), o("a")]}, {"keys": [o("a"), o("a")]}, {"keys": [o(None)]}, {"keys": [o("a")], "x": 1}, {"x": 1, "keys": [o("a")]}, {"Keys": [o("a")]}, {"keys": [o("a"), {}]}, {"keys": [o("a"), {"kty": "zz", "kid": "q"}]}, {"keys": [o("a")], "kid": None}): yield dict(kind="load", doc=x)
    P = pool()
    while True:
        n = g.int(1, 5)
        ks = []
        for i in range(n):
            j = dict(g.one(P[g.one(list(P))]))
            j["kid"] = g.one("a", "b", "c", "d", "e", g.text(nonempty=True), f"k{i}", f"k{i}")
            if g.maybe(0.3): j["use"] = g.one("sig", "enc")
            if g.maybe(0.2): j["alg"] = g.one("HS256", "RS256", "none", "A128KW")
            if g.maybe(0.2): j["key_ops"] = g.one(["sign"], ["verify"], ["encrypt", "decrypt"], [])
            if g.maybe(0.1): j["x"+g.word()] = g.text()
            if g.maybe(0.05): del j["kid"]
            ks.append(j)
        yield dict(kind="set", keys=ks, q=[g.one("a", "b", "k0", "k1", "zz", g.text()) for _ in range(3)] + [j.get("kid") for j in ks])
        yield dict(kind="load", doc={"keys": ks})

def bad_ids(js_):
    ids = [j.get("kid") for j in js_]
    return "a key has no ID" if None in ids else ("two keys have the same ID" if len(set(ids)) != len(ids) else None)

def judge(c):
    if c["kind"] == "raw":
        st, r = outcome(JsonWebKeySet, c["keys"])
        return f"a key set was made from {c['keys']!r}" if st == "ok" else None
    o = key_of(pool()["oct"][0]); o = JsonWebKey({**pool()["oct"][0], "kid": "base"})
    if c["kind"] == "load":
        d = c["doc"]
        st, r = outcome(JsonWebKeySet([o]).load, d)
        ok = isinstance(d, dict) and list(d) == ["keys"] and isinstance(d["keys"], list) and d["keys"] and all(key_of(k) is not None for k in d["keys"]) and not bad_ids(d["keys"])
        if st == "ok" and not ok: return f"the document {d!r} was accepted"
        if st != "ok" and ok: return f"a well-formed document was rejected: {r!r}"
        if st == "ok":
            if [k.data.get("kid") for k in r.keys] != [k["kid"] for k in d["keys"]]: return f"loaded the IDs {[k.data.get('kid') for k in r.keys]}"
            st, dd = outcome(r.dump, True)
            if st != "ok" or [x.get("kid") for x in dd["keys"]] != [k["kid"] for k in d["keys"]]: return f"dump after load gives {dd}"
        return None
    objs = [key_of(j) for j in c["keys"]]
    if None in objs: return None
    st, s = outcome(JsonWebKeySet, list(objs))
    bad = bad_ids(c["keys"])
    if st == "ok" and bad: return f"a key set was created although {bad}: {[j.get('kid') for j in c['keys']]}"
    if st != "ok": return None if bad else f"a valid key set was refused: {s!r}"
    for q in c["q"]:
        st, r = outcome(s.get_key, q)
        want = next((k for k, j in zip(objs, c["keys"]) if j["kid"] == q and type(j["kid"]) is type(q)), None)
        if st != "ok": return f"get_key({q!r}) raised {r!r}"
        if r is not want and not (want is None and r is not None and r.data["kid"] == q): return f"get_key({q!r}) returned {None if r is None else r.data.get('kid')!r} among {[j['kid'] for j in c['keys']]}"
    for p in (True, False):
        if not p and any(j["kty"] != "oct" and "d" not in j for j in c["keys"]): continue
        st, d = outcome(s.dump, p)
        if st != "ok": return f"dump({p}) raised {d!r}"
        if d != {"keys": [k.dump(p) for k in objs]}: return f"dump({p}) does not list the dumps of the keys in order"
