from .jose import *
import os, secrets, tempfile
RULE = "key generation with sizes and curves around the limits, documents of every family parsed as every family and format, raw secrets of every shape; distinct by case"
_docs = None
def docs():
    global _docs
    if _docs is None: _docs = mkdocs()
    return _docs

def mkdocs():
    P = pool(); out = []
    S = serialization
    for f, p, q in (("RSA", rsa_prv, rsa_pub), ("EC", ec_prv, ec_pub)):
        j = P["RSA"][0] if f == "RSA" else P["P-256"][0]
        out.append((f, "priv", p(j).private_bytes(S.Encoding.PEM, S.PrivateFormat.TraditionalOpenSSL, S.NoEncryption()), j))
        out.append((f, "priv", p(j).private_bytes(S.Encoding.PEM, S.PrivateFormat.PKCS8, S.NoEncryption()), j))
        out.append((f, "pub", q(j).public_bytes(S.Encoding.PEM, S.PublicFormat.SubjectPublicKeyInfo), j))
        out.append((f, "ssh", q(j).public_bytes(S.Encoding.OpenSSH, S.PublicFormat.OpenSSH), j))
    out.append(("RSA", "pub", rsa_pub(P["RSA"][0]).public_bytes(S.Encoding.PEM, S.PublicFormat.PKCS1), P["RSA"][0]))
    k1 = ec.generate_private_key(ec.SECP256K1(), B)
    out.append(("EC", "k1", k1.private_bytes(S.Encoding.PEM, S.PrivateFormat.TraditionalOpenSSL, S.NoEncryption()), None))
    k2 = ec.generate_private_key(ec.SECP224R1(), B)
    out.append(("EC", "k1", k2.public_key().public_bytes(S.Encoding.PEM, S.PublicFormat.SubjectPublicKeyInfo), None))
    return out

def cases(g):
    for n in (32, 33, 48, 64, 100, 31, 1, 16, 0, -1, 30, 255): yield dict(kind="gen", alg="oct", opt=n)
    yield dict(kind="gen", alg="oct", opt=None)
    for n in (511, 256, 128, 1, 0, 512, 1024): yield dict(kind="gen", alg="RSA", opt=n)
    for n in ("P-256", "P-384", "P-521", "P-255", "p-256", "P-192", "secp256k1", "P-224", "", "P-2560", "secp256r1", "P-512"): yield dict(kind="gen", alg="EC", opt=n)
    for a in ("OCT", "rsa", "ec", "OKP", "", "AES"): yield dict(kind="gen", alg=a, opt=None); yield dict(kind="build", key={"kty": a, "k": "AAAA"}, ok=False)
    P = pool()
    for k, v in P.items():
        j = v[0]
        yield dict(kind="build", key=j, ok=True); yield dict(kind="build", key={**j, "kty": "xx"}, ok=False); yield dict(kind="build", key={a: b for a, b in j.items() if a != "kty"}, ok=False)
        if j["kty"] == "EC":
            for crv in ("P-192", "p-256", "", None, "P-224", "secp256k1"): yield dict(kind="build", key={**j, "crv": crv}, ok=False)
            other = "P-384" if j["crv"] == "P-256" else "P-256"
            yield dict(kind="build", key={**j, "crv": other}, ok=False)
            yield dict(kind="build", key={**pub(j), "x": i2b(b2i(j["x"]) ^ 1)}, ok=False)
    for f, kind, doc, j in docs():
        for alg in ("RSA", "EC", "oct"):
            for fmt in ("pem", "der", "jwk", "PEM", ""):
                for pb in (True, False): yield dict(kind="parse", fam=f, what=kind, doc=doc, jwk=j, alg=alg, fmt=fmt, pub=pb)
    for s in (b"x", b"a" * 300, b"a" * 5000, b"a\0b", b"\0", b"/nope/nope", b"/dev", b"/", b".", b"..", b"a/b", b"\xff\xfe", b" ", b"/etc", b"\n", b"/dev/null/x", b"a" * 255, b"a" * 256, b"-----BEGIN", "text", "é", "a" * 400, "nul\0"): yield dict(kind="raw", sec=s)
    while True:
        yield dict(kind="gen", alg="oct", opt=g.int(-3, 80)); yield dict(kind="gen", alg="EC", opt=g.one("P-256", "P-384", "P-521", g.text(nonempty=True)))
        yield dict(kind="raw", sec=g.one(g.bytes_(), g.bytes_(g.int(1, 600)), g.text(nonempty=True), (g.text() + "/" + g.text() or "x").encode()))
        f, kind, doc, j = g.one(docs()) if g.maybe(0.2) else (None,) * 4
        if f: yield dict(kind="parse", fam=f, what=kind, doc=g.one(doc, b"\n" + doc, doc + b"\n", b"junk\n" + doc), jwk=j, alg=g.one("RSA", "EC", "oct"), fmt=g.one("pem", "pem", "der", g.text()), pub=g.maybe())

def judge(c):
    k = c["kind"]
    if k == "gen":
        a, o = c["alg"], c["opt"]
        st, r = outcome(lambda: JsonWebKey.generate(a, o) if o is not None else JsonWebKey.generate(a))
        if a not in ("oct", "RSA", "EC"): return f"generated a key of the unknown type {a!r}" if st == "ok" else None
        if o is None: 
            if a == "EC": return None
            return None if st == "ok" else f"generate({a}) raised {r!r}"
        low = {"oct": lambda: o < 32, "RSA": lambda: o < 512, "EC": lambda: o not in CURVE}[a]()
        if o == 0: low = None     # zero means the default size
        if low and st == "ok": return f"generated a weak key: {a} {o!r}"
        if low is False and st != "ok": return f"refused to generate {a} {o!r}: {r!r}" if a != "RSA" or o >= 1024 else None
        if st == "ok" and a == "oct" and o:
            s = ub(r.dump(False)["k"])
            if len(s) != o: return f"the secret has {len(s)} bytes instead of {o}"
            import random
            random.seed(3); s1 = JsonWebKey.generate("oct", o).dump(False)["k"]; random.seed(3); s2 = JsonWebKey.generate("oct", o).dump(False)["k"]
            if s1 == s2: return "generated secrets repeat"
            if len(set(s)) < 5: return f"the secret is not random: {s!r}"
        if st == "ok" and a == "EC" and r.dump(False)["crv"] != o: return f"generated curve {r.dump(False)['crv']} instead of {o}"
        if st == "ok" and a == "RSA" and o and b2i(r.dump(False)["n"]).bit_length() != o: return f"generated a modulus of {b2i(r.dump(False)['n']).bit_length()} bits instead of {o}"
        return None
    if k == "build":
        st, r = outcome(JsonWebKey, dict(c["key"]))
        if (st == "ok") != c["ok"]: return f"key {c['key']} was {'accepted' if st == 'ok' else f'refused: {r!r}'}"
        return None
    if k == "parse":
        st, r = outcome(lambda: JsonWebKey.parse(c["doc"], c["alg"], c["pub"], None, c["fmt"]))
        where = f"{c['fam']} {c['what']} document as {c['alg']} {c['fmt']!r} public={c['pub']}: {c['doc'][:60]!r}"
        if c["fmt"] not in ("pem", "der") or (c["fmt"] == "der" and c["alg"] != "oct"): return f"an unknown format was accepted: {where}" if st == "ok" else None
        if c["alg"] == "oct":
            if c["fmt"] != "pem": return None
            if c["what"] == "ssh" and c["fam"] != "RSA": return None
            return f"asymmetric material was taken as a symmetric secret: {where}" if st == "ok" else None
        if c["what"] in ("k1", "ssh"): return f"accepted: {where}" if st == "ok" else None
        if c["alg"] != c["fam"]: return f"one family was parsed as another: {where}" if st == "ok" else None
        if c["doc"].startswith(b"-----"):
            if c["what"] == "pub" and not c["pub"]: return f"accepted: {where}" if st == "ok" else None
            if st != "ok": return f"valid material was refused: {r!r}: {where}"
            d = r.dump(c["pub"])
            if any(d.get(x) != c["jwk"].get(x) and b2i(d[x]) != b2i(c["jwk"][x]) for x in d if x not in ("kty", "crv")): return f"the parsed key is another key: {where}"
        return None
    s = c["sec"]
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as td:
        os.chdir(td)
        try:
            try: readable = os.path.isfile(s)
            except (ValueError, OSError): readable = False
            if readable: return None
            st, r = outcome(lambda: JsonWebKey.parse(s, "oct", False, None, "der"))
        finally: os.chdir(old)
    raw = s.encode() if isinstance(s, str) else s
    if not raw: return None
    if st != "ok": return f"the raw secret {s!r} was refused: {r!r}"
    if ub(r.dump(False)["k"]) != raw: return f"the raw secret {s!r} was read as {ub(r.dump(False)['k'])!r}"
