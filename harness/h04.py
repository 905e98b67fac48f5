from .jose import *
RULE = "payloads and claims of every kind signed with every algorithm and key and read back with the key or its public half; distinct by payload, header and key"
def cases(g):
    for alg in ALGS + ["none"]:
        for j in (pool()[fam(alg)] if alg != "none" else pool()["oct"]):
            for p in (b"", b"x", b"{}", b"\xff\x00", b"a.b.c", b"\x80" * 4): yield dict(kind="jws", alg=alg, key=j, pay=p, hdr={})
            yield dict(kind="jwt", alg=alg, key=j, pay={"sub": "é", "n": 1, "x": [1, None, {"y": 2.5}]}, hdr={"typ": "JWT"})
    while True:
        alg = g.one(ALGS + ["none"]); j = any_key(g, alg if alg != "none" else None)
        hdr = {}
        for _ in range(g.int(0, 2)):
            k = g.text(nonempty=True)
            if k not in ("alg", "kid", "typ", "cty", "crit", "b64"): hdr[k] = g.json()
        if g.maybe(0.2): hdr["typ"] = g.text(nonempty=True)
        if g.maybe(0.2): j = {**j, "kid": "k1"}; hdr["kid"] = "k1"
        if g.maybe(0.1): hdr["crit"] = ["alg"]
        yield dict(kind="jws", alg=alg, key=j, pay=payloads(g), hdr=hdr)
        cl = {}
        for _ in range(g.int(1, 4)):
            k = g.text()
            if k not in ("exp", "iat", "nbf", "iss", "sub", "jti", "aud", "auth_time", "max_age", "nonce"): cl[k] = g.json()
        if g.maybe(0.3): cl["sub"] = g.text()
        if g.maybe(0.3): cl["exp"] = 2 ** 40
        if drop(cl): yield dict(kind="jwt", alg=alg, key=j, pay=cl, hdr=hdr)

def drop(d): return {k: v for k, v in d.items() if v is not None}
def judge(c):
    j, alg = c["key"], c["alg"]
    k = key_of(j)
    if k is None: return None
    hdr = {"alg": alg, **c["hdr"]}
    if hdr.get("crit"): hdr["crit"] = [x for x in hdr["crit"] if hdr.get(x)] or None
    hdr = drop(hdr)
    if c["kind"] == "jws":
        st, t = outcome(lambda: JsonWebSignature(c["pay"], dict(hdr)).serialize(k))
        exp = c["pay"]
    else:
        st, t = outcome(lambda: JsonWebToken(dict(c["pay"]), dict(hdr)).encode(k))
        exp = drop(c["pay"])
    where = f"{c['kind']} {alg} header {hdr} payload {c['pay']!r}"
    if st != "ok": return f"cannot be signed: {t!r}: {where}"
    tb = t.encode() if isinstance(t, str) else t
    parts = tb.split(b".")
    if len(parts) != 3 or any(b"=" in x or set(x) - set(B64C.encode()) for x in parts): return f"the serialization {t!r} is not three unpadded base64url parts: {where}"
    if json.loads(dec(parts[0])) != hdr: return f"the first part is {dec(parts[0])!r}: {where}"
    if c["kind"] == "jws" and dec(parts[1]) != c["pay"]: return f"the second part is {dec(parts[1])!r}: {where}"
    if c["kind"] == "jwt" and json.loads(dec(parts[1])) != exp: return f"the second part is {dec(parts[1])!r}: {where}"
    if alg != "none" and not ref_verify(j, alg, parts[0] + b"." + parts[1], dec(parts[2]) or b""): return f"the signature does not verify: {where}"
    for kk in (k, key_of(pub(j))):
        for e in (None, alg):
            if c["kind"] == "jws": st, r = outcome(lambda: JsonWebSignature.deserialize(tb, kk, e))
            else: st, r = outcome(lambda: JsonWebToken.decode(t, kk, e))
            if st != "ok": return f"cannot be read back: {r!r}: {where}"
            if dict(r.header) != hdr: return f"read back header {dict(r.header)}: {where}"
            got = r.payload if c["kind"] == "jws" else dict(r.claims)
            if got != exp: return f"read back {got!r}: {where}"
