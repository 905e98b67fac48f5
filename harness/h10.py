from .jose import *
RULE = "keys of every family with attributes, through dump/rebuild and export/parse; distinct by key dictionary"
KP = {"RSA": ["n", "e", "d", "p", "q", "dp", "dq", "qi"], "EC": ["crv", "x", "y", "d"], "oct": ["k"]}
def cases(g):
    P = pool()
    for ks in P.values():
        for j in ks:
            for v in (j, pub(j)):
                for e in ({}, {"kid": "a"}, {"kid": "a", "use": "sig", "alg": "x", "key_ops": ["sign", "verify"]}, {"x5c": ["a", "b"], "n0": 0, "k2": None}, {"use": "", "meta": {"a": [1]}}): yield dict(key={**v, **e})
    for n in list(range(0, 20)) + [31, 33, 48, 64, 255, 300]: yield dict(key={"kty": "oct", "k": u(bytes((i * 97 + n) % 256 for i in range(n)))})
    yield dict(key={"kty": "oct", "k": u(b"\xff\xfe\xfd")}); yield dict(key={"kty": "oct", "k": u(b"ssh-rsa AAAA")})
    for k in ("RSA", "P-256"):
        j = P[k][0]
        if k == "RSA": yield dict(key={a: b for a, b in j.items() if a in ("kty", "n", "e", "d")}); yield dict(key={a: b for a, b in j.items() if a not in ("dp", "dq", "qi")})
    while True:
        ks = P[g.one(list(P))]
        j = dict(g.one(ks)) if g.maybe(0.7) else oct_jwk(g.int(1, 90))
        if g.maybe(0.4): j = pub(j)
        for _ in range(g.int(0, 4)):
            k = g.one(g.text(nonempty=True), "kid", "use", "alg", "key_ops", "x5t")
            if k not in sum(KP.values(), []) and k not in ("kty", "self"): j[k] = g.json()
        if g.maybe(0.03) : j = ec_jwk(g.one("P-256", "P-384", "P-521"))
        yield dict(key=j)

def norm(v): return ub(v).lstrip(b"\0") if isinstance(v, str) else v
def judge(c):
    j = c["key"]
    k = key_of(j)
    if k is None: return None
    fam_ = j["kty"]
    private = fam_ == "oct" or bool(j.get("d"))
    kp = KP[fam_]
    where = f"key {({a: (b if len(str(b)) < 60 else '...') for a, b in j.items()})}"
    attrs = {a: b for a, b in j.items() if a not in kp and a != "kty" and b is not None}
    for p in ([False, True] if private else [True]):
        st, d = outcome(lambda: k.dump(p))
        if st != "ok": return f"dump({p}) raised {d!r}: {where}"
        if d.get("kty") != fam_: return f"dump({p}) states kty {d.get('kty')!r}: {where}"
        got = {a: b for a, b in d.items() if a not in kp and a != "kty"}
        if got != attrs: return f"dump({p}) has the attributes {got} instead of {attrs}: {where}"
        for a in kp:
            if a in d and a in j and j[a]:
                same = d[a] == j[a] if a == "crv" else (ub(d[a]) == ub(j[a]) if fam_ == "oct" else b2i(d[a]) == b2i(j[a]))
                if not same: return f"dump({p}) has {a}={d[a]!r}: {where}"
        need = kp if not p else [a for a in kp if a not in PRIV]
        if fam_ == "oct": need = ["k"]
        miss = [a for a in need if a not in d]
        if miss: return f"dump({p}) lacks {miss}: {where}"
        st, k2 = outcome(lambda: JsonWebKey(d))
        if st != "ok": return f"the dump cannot be read: {k2!r}: {where}"
        st, d2 = outcome(lambda: k2.dump(p))
        if st != "ok" or d2 != d: return f"rebuilding from the dump gives {d2}: {where}"
        if fam_ == "RSA" and not p:
            n = b2i(d["n"])
            if b2i(d["p"]) * b2i(d["q"]) != n or (b2i(d["qi"]) * b2i(d["q"])) % b2i(d["p"]) != 1 or b2i(d["dp"]) != b2i(d["d"]) % (b2i(d["p"]) - 1) or b2i(d["dq"]) != b2i(d["d"]) % (b2i(d["q"]) - 1): return f"the private parameters are inconsistent: {where}"
    mat = lambda kk, p: {a: (b2i(v) if a != "crv" and fam_ != "oct" else v) for a, v in kk.dump(p).items() if a in kp}
    if fam_ == "oct":
        if not ub(j["k"]): return None
        if any(x in base64.b64encode(ub(j["k"])) for x in (b"ssh-rsa",)): return None
        st, e = outcome(lambda: k.export())
        if st != "ok": return f"export raised {e!r}: {where}"
        st, k2 = outcome(lambda: JsonWebKey.parse(e, "oct", False))
        if st != "ok": return f"the export {e!r} cannot be parsed: {k2!r}: {where}"
        if ub(k2.dump(False)["k"]) != ub(j["k"]): return f"exporting and parsing gives another secret: {where}"
        return None
    for p in ([False, True] if private else [True]):
        st, e = outcome(lambda: k.export(p))
        if st != "ok": return f"export({p}) raised {e!r}: {where}"
        st, k2 = outcome(lambda: JsonWebKey.parse(e, fam_, p))
        if st != "ok": return f"the export({p}) cannot be parsed: {k2!r}: {where}"
        if mat(k2, p) != mat(k, p): return f"export({p}) and parse give another key: {where}"
        st, k3 = outcome(lambda: JsonWebKey.parse(e, fam_, p, kid="zz", use="sig"))
        if st != "ok" or k3.dump(p).get("kid") != "zz" or k3.dump(p).get("use") != "sig": return f"parse dropped the given attributes: {where}"
