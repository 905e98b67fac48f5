from .jose import *
RULE = "every pair of algorithm and key (families, curves), signing and verifying, with and without an expected algorithm; distinct by token, key and expected algorithm"
def cases(g):
    P = pool()
    keys = [v for ks in P.values() for v in ks[:2]]
    for alg in ALGS + ["none"]:
        for j in keys:
            yield dict(op="sign", alg=alg, key=j, pay=b"x")
            for exp in (None, alg, "none", "HS256", "ES256", "RS256", alg.lower(), "", "xx", alg + " ES384", "x" + alg, alg[:-1], alg[:2]):
                for t in toks(alg, j): yield dict(op="verify", tok=t, key=j, exp=exp)
    while True:
        alg = g.one(ALGS + ["none"]); j = any_key(g)
        if g.maybe(0.6) and alg != "none": j = any_key(g, alg)
        p = payloads(g)
        yield dict(op="sign", alg=alg, key=j, pay=p)
        for t in toks(alg, j, p): yield dict(op="verify", tok=t, key=g.one(j, pub(j)), exp=g.one(None, alg, g.one(ALGS + ["none"]), g.text(), alg + g.text(), alg[:g.int(1, 5)], g.text() + alg))

def toks(alg, j, p=b'{"a":1}'):
    h = {"alg": alg}
    if alg == "none": yield mk(h, p, sig=b""); yield mk(h, p, sig=b"AA"); return
    f = {"oct": "HS", "RSA": "RS", "EC": "ES"}[j["kty"]]
    for a in {f + "256", f + "384", f + "512"} | ({"PS256", "PS384", "PS512"} if f == "RS" else set()):
        yield mk(h, p, j, alg=a)
    if j["kty"] != "oct":
        # HMAC keyed with public material: the classic confusion
        msg = (u(json.dumps(h).encode()) + "." + u(p)).encode()
        k = (rsa_pub(j) if j["kty"] == "RSA" else ec_pub(j)).public_bytes(serialization.Encoding.PEM, serialization.PublicFormat.SubjectPublicKeyInfo)
        yield mk(h, p, sig=u(_hmac.new(k, msg, "sha256").digest()).encode())

import hmac as _hmac
def judge(c):
    k = key_of(c["key"])
    if k is None: return None
    j = c["key"]
    if c["op"] == "sign":
        alg = c["alg"]
        st, r = outcome(lambda: JsonWebSignature(c["pay"], {"alg": alg}).serialize(k))
        fits = alg != "none" and (j["kty"] == {"HS": "oct", "RS": "RSA", "PS": "RSA", "ES": "EC"}[alg[:2]]) and (j["kty"] != "EC" or j["crv"] == fam(alg))
        if alg == "none": return None
        if st == "ok" and not fits: return f"{alg} signed with a {j['kty']} {j.get('crv', '')} key"
        if st == "ok":
            h, p, s = r.split(b".")
            if not ref_verify(j, alg, h + b"." + p, dec(s) or b""): return f"the signature made with {alg} does not use the hash and padding of its name"
        elif fits and "d" in j or fits and j["kty"] == "oct": return f"{alg} refused to sign with a fitting key: {r!r}"
        return None
    t, exp = c["tok"], c["exp"]
    alg = json.loads(dec(t.split(b".")[0]))["alg"]
    for what, f in (("deserialize", lambda: JsonWebSignature.deserialize(t, k, exp)), ("decode", lambda: JsonWebToken.decode(t, k, exp)), ("deserialize unvalidated", lambda: JsonWebSignature.deserialize(t, k, exp, False))):
        st, r = outcome(f)
        if st != "ok": continue
        if exp and alg != exp: return f"{what} accepted a token with algorithm {alg} although {exp!r} was expected"
        if what.endswith("unvalidated"): continue
        if alg != "none":
            h, p, s = t.split(b".")
            if not ref_verify(j, alg, h + b"." + p, dec(s)): return f"{what} accepted a {alg} token with a {j['kty']} {j.get('crv', '')} key although it does not verify with the hash, padding and key family of {alg}"
    if alg != "none" and exp in (None, alg):
        h, p, s = t.split(b".")
        if ref_verify(j, alg, h + b"." + p, dec(s)):
            st, r = outcome(JsonWebSignature.deserialize, t, k, exp)
            if st != "ok": return f"a correctly signed {alg} token was refused: {r!r}"
