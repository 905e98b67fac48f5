from .jose import *
RULE = "RSA and EC keys, private, public and partial, with extra attributes, dumped and exported alone and in sets; distinct by key dictionary"
EX = [{}, {"kid": "a"}, {"kid": "a", "use": "sig", "alg": "RS256"}, {"x5c": ["a"]}, {"key_ops": ["sign"]}, {"iss": "d"}]
def variants(j):
    yield j
    yield pub(j)
    if j["kty"] == "RSA":
        yield {k: v for k, v in j.items() if k in ("kty", "n", "e", "d")}
        yield {k: v for k, v in j.items() if k not in ("dp", "dq", "qi")}
        yield {k: v for k, v in j.items() if k != "d"}                      # a public key with stray private parameters
        yield {k: v for k, v in j.items() if k not in ("d", "p")}
        yield {**pub(j), "qi": j["qi"]}
        yield {**pub(j), "p": j["p"], "q": j["q"]}
        yield {**pub(j), "dp": j["dp"]}
        yield {**pub(j), "d": "", "dq": j["dq"]}
        yield {**pub(j), "d": None, "p": j["p"]}
    else:
        yield {**pub(j), "d": ""}
        yield {**pub(j), "d": None}
def cases(g):
    P = pool()
    for f in ("RSA", "P-256", "P-384", "P-521"):
        for j in P[f]:
            for v in variants(j):
                for e in EX: yield dict(key={**v, **e})
    while True:
        j = g.one(P[g.one("RSA", "P-256", "P-384", "P-521")])
        v = dict(g.one(list(variants(j))))
        for _ in range(g.int(0, 3)):
            k = g.text(nonempty=True)
            if k not in v and k not in PRIV and k not in ("kty", "n", "e", "x", "y", "crv", "self"): v[k] = g.json()
        for k in g.r.sample(PRIV, g.int(0, 3)):
            if v["kty"] == "EC" and k != "d" and g.maybe(0.3): v[k] = "c2VjcmV0"
        yield dict(key=v)

def leak(d, own):
    bad = [k for k in own if k in d]
    if bad: return f"the public dump contains {bad}"

def judge(c):
    j = c["key"]
    k = key_of(j)
    if k is None: return None
    own = ("d", "p", "q", "dp", "dq", "qi") if j["kty"] == "RSA" else ("d",)
    secrets_ = {v for a, v in j.items() if a in own and isinstance(v, str) and v}
    private = bool(j.get("d"))
    where = f"key with members {sorted(j)}"
    for what, f in (("dump()", lambda: k.dump()), ("dump(True)", lambda: k.dump(True)), ("dump(public=True)", lambda: k.dump(public=True))):
        st, d = outcome(f)
        if st != "ok": return f"{what} raised {d!r}: {where}"
        bad = leak(d, own)
        if bad: return f"{what}: {bad}: {where}"
        if secrets_ & {v for v in d.values() if isinstance(v, str)} : return f"{what} discloses the value of a private parameter: {where}"
    if isinstance(j.get("kid"), str):
        ks = JsonWebKeySet([k])
        for f in (lambda: ks.dump(), lambda: ks.dump(True)):
            st, d = outcome(f)
            if st != "ok": return f"key set dump raised {d!r}: {where}"
            for x in d["keys"]:
                bad = leak(x, own)
                if bad: return f"key set dump: {bad}: {where}"
    st, e = outcome(lambda: k.export(True))
    if st != "ok": return f"export(True) raised {e!r}: {where}"
    if not isinstance(e, bytes) or b"PRIVATE" in e or not e.startswith(b"-----BEGIN PUBLIC KEY-----"): return f"export(True) is not a public-key document: {e[:40]!r}: {where}"
    try: serialization.load_pem_public_key(e, B)
    except Exception as x: return f"export(True) is not loadable as a public key: {x!r}"
    if not private:
        for what, f in (("dump(False)", lambda: k.dump(False)), ("export(False)", lambda: k.export(False)), ("export()", lambda: k.export())):
            st, d = outcome(f)
            if st == "ok": return f"{what} of a public key was not refused: {where}"
