from .jose import *
RULE = "keys with every combination of use, alg, key_ops and kid against header algorithms and kids, signing and verifying; distinct by key attributes and header"
def cases(g):
    for alg in ALGS + ["none"]:
        for attrs in ([{"use": x} for x in ("sig", "enc", "SIG", "sign", "")] + [{"alg": x} for x in ALGS + ["none", "", "RSA-OAEP"]] +
                      [{"key_ops": x} for x in (["sign"], ["verify"], ["sign", "verify"], ["encrypt"], ["sign", "encrypt"], ["verify", "wrapKey"], [], ["Sign"], ["sig"], ["encrypt", "sign"], ["sign", ""], [""], ["sign", None])] +
                      [{"kid": x} for x in ("a", "b", "")] + [{}]):
            for kid in (None, "a", "A", "b"):
                yield dict(alg=alg, key={**any_key(g, alg if alg != "none" else None), **attrs}, kid=kid)
    for bad in (None, "secret", b"secret", {"kty": "oct", "k": "AA"}, 5, []): yield dict(alg="HS256", key=bad, kid=None)
    while True:
        alg = g.one(ALGS + ["none"])
        a = {}
        if g.maybe(0.5): a["use"] = g.one("sig", "sig", "enc", g.text())
        if g.maybe(0.5): a["alg"] = g.one(alg, alg, g.one(ALGS), g.text())
        if g.maybe(0.5): a["key_ops"] = g.one([["sign"], ["verify"], ["sign", "verify"], [g.one("sign", "verify", "encrypt", "decrypt", "wrapKey", "deriveBits", "", g.text()) for _ in range(g.int(0, 3))]])
        if g.maybe(0.5): a["kid"] = g.one("a", "b", g.text())
        yield dict(alg=alg, key={**any_key(g, alg if alg != "none" else None), **a}, kid=g.one(None, "a", "b", a.get("kid") or None, g.text(nonempty=True)))

def forbidden(key, alg, kid):
    if not isinstance(key, dict) or "kty" not in key: return "it is not a key object"
    if key.get("use") and key["use"] != "sig": return f"its use is {key['use']!r}"
    if key.get("alg") and key["alg"] != alg: return f"its alg is {key['alg']!r}"
    if any(o not in ("sign", "verify") for o in key.get("key_ops") or ()): return f"its key_ops are {key['key_ops']}"
    if kid and key.get("kid") != kid: return f"its kid is {key.get('kid')!r}, the header says {kid!r}"

def judge(c):
    key, alg, kid = c["key"], c["alg"], c["kid"]
    obj = isinstance(key, dict) and len(key) > 2 or isinstance(key, dict) and key.get("k") != "AA"
    k = key_of(key) if obj else key
    if k is None and obj: return None
    why = forbidden(key, alg, kid) if obj else "it is not a key object"
    hdr = {"alg": alg}
    if kid: hdr["kid"] = kid
    claims = {"sub": "x"}
    body = json.dumps(claims).encode()
    base = any_key_for(alg, key)
    tok = mk(hdr, body, base, alg, sig=b"" if alg == "none" else None)
    for what, f in (("signed (JWS)", lambda: JsonWebSignature(body, dict(hdr)).serialize(k)), ("signed (JWT)", lambda: JsonWebToken(claims, dict(hdr)).encode(k)),
                    ("accepted (JWS)", lambda: JsonWebSignature.deserialize(tok, k)), ("accepted (JWT)", lambda: JsonWebToken.decode(tok, k)), ("accepted (JWT, expected algorithm)", lambda: JsonWebToken.decode(tok, k, alg))):
        st, r = outcome(f)
        if st == "ok" and why: return f"a token was {what} with a key although {why} (algorithm {alg}, header kid {kid!r})"
        if st != "ok" and not why: return f"a token was not {what} with an unrestricted key {({a: b for a, b in key.items() if a in ('use', 'alg', 'kid', 'key_ops')})}: {r!r} (algorithm {alg}, header kid {kid!r})"

def any_key_for(alg, key):
    if isinstance(key, dict) and "kty" in key and key.get("k") != "AA": return key
    return pool()["oct"][0]
