from .core import *
import base64, hashlib, random as _r, secrets, string
import psion.webtools as W
import psion.oauth2.grants.authorization_code as AC
RULE = "token sizes, PKCE pairs and half hashes; tokens judged with the global generators re-seeded; distinct by case"
URL64 = set(string.ascii_letters + string.digits + "-_")
NAMES = [p + n for p in ("HS", "RS", "ES", "PS") for n in ("256", "384", "512")]
def s256(v): return base64.urlsafe_b64encode(hashlib.sha256(v).digest()).rstrip(b"=").decode()
def cases(g):
    for n in list(range(1, 70)) + [128, 500]: yield ("tok", n)
    yield ("dist", 4000)
    vs = ["a", "v" * 43, "dBjftJeZ4CVP-mB92K27uhbUJU1p1r_wW1gFWFOEjXk", "é" * 43, "", "x" * 128, "~._-", "\u0130"]
    for v in vs:
        a = v.encode("ascii", "replace")
        for c in (v, s256(v.encode()), s256(a), s256(v.encode()) + "=", s256(v.encode()).upper(), base64.b64encode(hashlib.sha256(v.encode()).digest()).decode(), hashlib.sha256(v.encode()).hexdigest(), s256(v.encode())[:-1], "", v + "x", v.upper()): yield ("pkce", c, v)
    for n in NAMES:
        for t in ("", "AT1", "é", "a" * 300): yield ("half", t, n)
    while True:
        v = g.one(g.text(), g.word() * 5, "".join(g.r.choice(string.ascii_letters + "-._~") for _ in range(g.int(43, 128))))
        yield ("pkce", g.one([v, s256(v.encode()), s256(v.encode()), g.text(), s256(g.text().encode()), v.lower()]), v)
        yield ("half", g.text(), g.one(NAMES)); yield ("tok", g.int(1, 200))
        if g.maybe(0.01): yield ("dist", 4000)

def judge(c):
    k = c[0]
    if k == "tok":
        seen = set()
        for _ in range(2):
            _r.seed(5)
            st, t = outcome(W.secret_token, c[1])
            if st != "ok": return f"secret_token({c[1]}) raised {t!r}"
            if not isinstance(t, str) or len(t) != c[1]: return f"secret_token({c[1]}) has {len(t)} characters"
            if set(t) - URL64: return f"secret_token({c[1]}) has the characters {sorted(set(t) - URL64)}"
            seen.add(t)
        if c[1] >= 12 and len(seen) == 1: return "secret_token repeats when the ordinary generator is re-seeded: it is not the system's cryptographic generator"
        return None
    if k == "dist":
        from collections import Counter
        t = "".join(W.secret_token(64) for _ in range(c[1] // 64))
        n = Counter(t)
        miss = URL64 - set(n)
        if miss: return f"{len(t)} characters of tokens never contain {sorted(miss)}"
        e = len(t) / 64
        if max(n.values()) > e * 2.2 or min(n.values()) < e * 0.25: return f"the characters of tokens are not uniform: {n.most_common(2)}"
        pairs = sum(1 for i in range(len(t) - 1) if t[i] == t[i + 1])
        if pairs > 4 * len(t) / 64 + 10: return "neighbouring characters of tokens are correlated"
        return None
    if k == "pkce":
        ch, v = c[1], c[2]
        for m, exp in (("plain", ch == v), ("S256", v.isascii() and ch == s256(v.encode()))):
            f = AC.AuthorizationCodeGrant._challenges[m]
            st, r = outcome(f, ch, v)
            if st != "ok": return f"{m}({ch!r}, {v!r}) raised {r!r}"
            if bool(r) != exp: return f"{m}(challenge {ch!r}, verifier {v!r}) = {r}"
        return None
    t, n = c[1], c[2]
    st, r = outcome(W.create_half_hash, t, n)
    h = hashlib.new("sha" + n[2:], t.encode()).digest()
    exp = base64.urlsafe_b64encode(h[: len(h) // 2]).rstrip(b"=").decode()
    if st != "ok" or r != exp: return f"create_half_hash({t!r}, {n}) = {r!r}, expected {exp!r}"

def from_model(name, inp):
    if "challenge" in inp: yield ("pkce", str(inp.get("challenge")), str(inp.get("verifier")))
    if "access_token" in inp:
        for n in NAMES: yield ("half", str(inp["access_token"]), n)
    if isinstance(inp.get("size"), int) and 0 < inp["size"] < 10000: yield ("tok", inp["size"])
