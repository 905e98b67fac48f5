from .jose import *
RULE = "tokens made by a reference signer with right, wrong and other keys and algorithms, then altered (bits, parts, separators, header swaps); distinct by token and key"
def cases(g):
    P = pool()
    for alg in ALGS:
        j = any_key(g, alg)
        t = mk({"alg": alg}, b'{"sub":"a"}', j)
        yield dict(tok=t, key=j)
        h, p, s = t.split(b".")
        h2 = u(json.dumps({"alg": "none"}).encode()).encode()
        for x in (h + b"." + p + b".", h2 + b"." + p + b"." + s, h2 + b"." + p + b".", h + b"." + u(b'{"sub":"b"}').encode() + b"." + s, h + b"." + p, h + b"." + p + b"." + s + b".", b"." + t, h + b".." + s, b".".join([h, p, s, s]), b"..", b"", b".".join([h, b"", s])):
            yield dict(tok=x, key=j)
        for a2 in ALGS + ["none", "hs256", "HS1"]:
            if a2 != alg:
                hh = u(json.dumps({"alg": a2}).encode()).encode()
                yield dict(tok=hh + b"." + p + b"." + s, key=j)
                try: yield dict(tok=mk({"alg": a2}, b'{"sub":"a"}', j, alg=alg), key=j)
                except Exception: pass
        yield dict(tok=mk({"alg": alg}, b"x", j, sig=u(b"\x00" * 32).encode()), key=j)
    while True:
        alg = g.one(ALGS)
        j = any_key(g, alg)
        hdr = {"alg": alg}
        if g.maybe(0.3): hdr[g.text(nonempty=True)] = g.json()
        if g.maybe(0.3): hdr = {"typ": "JWT", **hdr}
        try: t = mk(hdr, payloads(g), j)
        except Exception: continue
        if hdr.get("alg") != alg: continue
        k = j
        if g.maybe(0.15): k = any_key(g, alg)
        if g.maybe(0.1): k = any_key(g)
        if g.maybe(0.6): t = mutate(g, t)
        if g.maybe(0.05): t = t.decode("latin-1")
        yield dict(tok=t, key=g.one(k, pub(k)), mode=g.one("jws", "jwt", "jws"))

def judge(c):
    k = key_of(c["key"])
    if k is None: return None
    t = c["tok"]
    tb = t.encode("utf-8") if isinstance(t, str) else t
    st, r = outcome(JsonWebSignature.deserialize, t, k)
    if st == "ok":
        bad = accepted_ok(tb, c["key"], r.header, r.payload)
        if bad: return f"JsonWebSignature.deserialize accepted {t!r}: {bad}"
    st, r = outcome(JsonWebToken.decode, t, k)
    if st == "ok":
        bad = accepted_ok(tb, c["key"], r.header, None)
        if bad: return f"JsonWebToken.decode accepted {t!r}: {bad}"
        cl = json.loads(dec(tb.split(b".")[1]))
        if dict(r.claims) != {a: b for a, b in cl.items() if b is not None}: return f"JsonWebToken.decode({t!r}) returned claims {dict(r.claims)}, the token has {cl}"
