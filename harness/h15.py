from .core import *
import base64
import psion.webtools as W
RULE = "headers dictionaries with well-formed and malformed Basic and Bearer values; distinct by headers"
def b(s): return base64.b64encode(s.encode() if isinstance(s, str) else s).decode()
def cases(g):
    vals = ["", " ", "Basic", "Basic ", "Basic  ", "Bearer", "Bearer ", " Basic", "Basic é", "Basic !!", "Basic a", "Basic " + b("a:b"), "basic " + b("a:b"), "BASIC " + b("a:b:c"), "bAsIc  " + b("a:b"), "Basic\t" + b("a:b"), "Basic " + b("ab"), "Basic " + b(":"), "Basic " + b(":b"), "Basic " + b("a:"), "Basic " + b(""), "Basic " + b(b"\xff:\xfe"), "Basic " + b("é:ü"), "Bearer x", "bearer x y", "BEARER  x ", "Bearer é", "Digest x", "Basicx " + b("a:b"), "Bearerx t", "\u3000Basic " + b("a:b"), "Basic\u00a0" + b("a:b"), " Basic " + b("a:b"), "Basic " + b("a:b") + " x", "Basic " + b("a:b")[:-1], "Basic =" + b("a:b"), "Basıc " + b("a:b"), "ßasic x", "Basic " + b("a:b\n"), "Bearer a\nb", None, 0, 5, b"Basic YTpi", [], ["Basic YTpi"], True, 1.5]
    for v in vals:
        for k in ("authorization", "Authorization", "AUTHORIZATION"): yield {k: v}
        for w in ("Basic " + b("x:y"), "Bearer z", "", None): yield {"authorization": v, "Authorization": w}
    yield {}
    while True:
        s = g.one("Basic", "basic", "BASIC", "bAsIC", "Bearer", "bearer", "BEARER", "Basi", g.text())
        sep = g.one(" ", " ", " ", "  ", "\t ", "", "\n", "\u2003")
        t = g.one(b(g.text() + ":" + g.text()), b(g.text()), g.text(), b(g.bytes_()), b(g.text() + ":" + g.text()).rstrip("="))
        yield {g.one("authorization", "Authorization", "authorization", "AUTHORIZATION"): s + sep + t}

def scheme(h, want):
    a = h.get("authorization") or h.get("Authorization")
    if not isinstance(a, str) or " " not in a: return None
    p = a.split(None, 1)
    if len(p) != 2 or p[0].lower() != want: return None
    return p[1]

def judge(h):
    st, r = outcome(W.get_basic_authorization, dict(h))
    if st != "ok": return f"get_basic_authorization({h!r}) raised {r!r}"
    exp = (None, None)
    t = scheme(h, "basic")
    if t is not None:
        try: raw = base64.b64decode(t)
        except Exception: raw = None
        if raw is not None:
            try: s = raw.decode()
            except UnicodeDecodeError: s = ""
            if ":" in s: exp = tuple(s.split(":", 1))
    if tuple(r) != exp: return f"get_basic_authorization({h!r}) = {r!r}, expected {exp!r}"
    st, r = outcome(W.get_bearer_authorization, dict(h))
    if st != "ok": return f"get_bearer_authorization({h!r}) raised {r!r}"
    if r != scheme(h, "bearer"): return f"get_bearer_authorization({h!r}) = {r!r}, expected {scheme(h, 'bearer')!r}"

def from_model(name, inp):
    if isinstance(inp.get("headers"), dict): yield inp["headers"]
