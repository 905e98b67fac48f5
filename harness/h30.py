from .core import *
import copy
from urllib.parse import parse_qsl, urlencode, urlsplit, quote
from psion.oauth2.models import Request
RULE = "sequences of requests with random methods, URLs, headers and bodies; distinct by sequence"
def one(g):
    kv = lambda: [(g.text(nonempty=True), g.text()) for _ in range(g.int(0, 4))]
    q, f = kv(), kv()
    if q and g.maybe(0.5): f.append((q[0][0], g.text()))
    if g.maybe(0.2) and f: f.append(f[0][:1] + (g.text(),))
    url = g.one("https://as.example/token", "/token", "https://h:8080/a/b", "", "https://as.example/p%20q") + ("?" + urlencode(q) if q or g.maybe(0.1) else "") + g.one("", "", "#frag=1", "#a=b&c=d")
    if g.maybe(0.1): url = g.one("https://x/?a=1&a=2", "https://x/?a", "https://x/?a=", "https://x/?a=b;c=d", "https://x?a=%zz", "https://x/?a+b=c+d", "?a=b")
    body = g.one([urlencode(f).encode(), urlencode(f).encode(), None, b"", g.bytes_(), urlencode(f)])
    h = {g.one("Authorization", "X-A", "x-b", "CONTENT-TYPE", g.word().title()): g.one(g.text(), None, 5) for _ in range(g.int(0, 3))}
    return (g.one("GET", "POST", "get", "Post", "PUT", "DELETE", "", "GETX", "HEAD", "OPTIONS", "POST"), url, h, body)

def cases(g):
    for m in ("GET", "POST", "get", "post", "gEt", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "", "POSTX", " GET", "CONNECT"): yield [(m, "https://x/?a=1&b=2", {"X-A": "1"}, b"b=3&c=4")]
    yield [("POST", "https://x/?a=1", {}, None), ("POST", "https://x/", {}, b"b=1"), ("POST", "https://x/", {}, None)]
    while True: yield [one(g) for _ in range(g.int(1, 3))]

def text(b):
    if b is None: return ""
    if isinstance(b, str): return b
    try: return b.decode()
    except UnicodeDecodeError:
        import base64
        return base64.urlsafe_b64encode(b).rstrip(b"=").decode()

def judge(c):
    objs = []
    for m, url, h, body in c:
        h0, hd = copy.deepcopy(h), h
        user = ["user"]
        st, r = outcome(Request, m, url, hd, body, user)
        where = f"Request({m!r}, {url!r}, {h!r}, {body!r})"
        if m.lower() not in ("get", "post"):
            if st == "ok": return f"the method {m!r} was accepted: {where}"
            continue
        try: q = dict(parse_qsl(urlsplit(url).query)); f = dict(parse_qsl(text(body)))
        except ValueError: continue
        if st != "ok": return f"{where} raised {r!r}"
        if hd != h0: return f"{where} changed the headers dictionary to {hd}"
        if dict(r.query) != q: return f"{where}.query = {r.query}, expected {q}"
        if dict(r.form()) != f: return f"{where}.form() = {r.form()}, expected {f}"
        if dict(r.data) != {**q, **f}: return f"{where}.data = {r.data}, expected {({**q, **f})}"
        if dict(r.headers) != {k.lower(): v for k, v in h.items()}: return f"{where}.headers = {r.headers}"
        if r.user is not user or r.method != m or r.url != url: return f"{where} does not keep its method, URL or user"
        objs.append((r, q, f))
        for o, oq, of in objs[:-1]:
            if o.data is r.data or o.headers is r.headers: return f"{where} shares its parameters with another request"
        if r.data is r.query: return f"{where}: changing the parameters changes the query"
    for r, q, f in objs: r.data.clear(); r.data["__poison__"] = "1"; r.headers["__poison__"] = "1"
    for r, q, f in objs:
        if dict(r.form()) != f or dict(r.query) != q: return f"changing the parameters of a request changed its form {r.form()} or query {r.query}"
    if c and c[0][0].lower() in ("get", "post"):
        st, r = outcome(Request, c[0][0], c[0][1], {}, c[0][3], None)
        if st == "ok" and ("__poison__" in r.data or "__poison__" in r.headers): return "parameters leak between requests"
