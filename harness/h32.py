from .core import *
import copy, json
import psion.webtools as W
from psion.oauth2.models import JSONResponse, RedirectResponse, Response
import psion.oauth2.exceptions as X
RULE = "null-dropping dictionaries under random construction and assignment, JSON responses, redirects to random URLs, error dumps; distinct by case"
SAFE = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~:/?#[]@!$&'()*+,;=%")
ERR = ["InvalidRequest", "InvalidClient", "InvalidGrant", "UnauthorizedClient", "AccessDenied", "UnsupportedResponseType", "UnsupportedGrantType", "UnsupportedTokenType", "InvalidScope", "ServerError", "TemporarilyUnavailable"]
CODES = ["invalid_request", "invalid_client", "invalid_grant", "unauthorized_client", "access_denied", "unsupported_response_type", "unsupported_grant_type", "unsupported_token_type", "invalid_scope", "server_error", "temporarily_unavailable"]
def cases(g):
    for d in (None, {}, {"a": None}, {"a": 1, "b": None}, {"a": 0, "b": "", "c": False, "d": [], "e": {}}, {"a": {"b": None}}, {"a": [None]}): yield ("full", d, {}, [])
    for e in ERR:
        for kw in ({}, {"description": "d"}, {"uri": "u"}, {"state": "s"}, {"description": "d", "uri": "u", "state": "s"}, {"description": ""}, {"state": ""}): yield ("err", e, kw)
    yield ("err", "FatalError", {"error": "boom", "description": "d"}); yield ("err", "FatalError", {"error": "invalid_request"})
    for u in ("https://x/", "https://x/?a=b", "https://x/ y", "https://x/\r\nSet-Cookie: a=b", "https://x/é", "https://x/<script>", "https://x/\"", "https://x/%20", "a\tb", "\x00", "\x7f", "https://x/?q=a+b", "\u2028", "https://[::1]/", "a|b\\c^d`e{f}"): yield ("loc", u, None)
    for b in (None, {}, [], "", 0, {"a": None}, {"é": "\u2028"}, [1, [2]], "x", True): yield ("json", 200, None, b)
    for h in (None, {}, {"X": None}, {"X": "1", "Cache-Control": "no-store"}, {"Content-Type": "text/plain"}): yield ("json", 400, h, {"a": 1}); yield ("loc", "https://x/", h)
    while True:
        d = {g.text(): g.json() for _ in range(g.int(0, 4))}
        kw = {g.word(): g.json() for _ in range(g.int(0, 2))}
        yield ("full", g.one(d, None), kw, [(g.one(g.text(), *(list(d) or ["z"])), g.one(None, g.json())) for _ in range(g.int(0, 3))])
        yield ("loc", "https://x/" + g.text() + g.one("", "?a=" + g.text()) + g.text(), g.one(None, {"X-A": "1"}))
        yield ("json", g.one(200, 400, 401), g.one(None, {g.word(): g.one("v", None)}), g.json())
        yield ("err", g.one(ERR), {k: g.one(None, g.text()) for k in g.r.sample(["description", "uri", "state"], g.int(0, 3))})

def judge(c):
    k = c[0]
    if k == "full":
        _, d, kw, sets = c
        src = copy.deepcopy(d)
        st, r = outcome(lambda: W.FullDict(src, **kw) if src is not None else W.FullDict(**kw))
        if st != "ok": return f"FullDict({d!r}, **{kw}) raised {r!r}"
        exp = {a: b for a, b in {**(d or {}), **kw}.items() if b is not None}
        if dict(r) != exp: return f"FullDict({d!r}, **{kw}) = {dict(r)}, expected {exp}"
        if src != d: return f"FullDict changed its argument to {src}"
        for a, b in sets:
            r[a] = b
            if b is not None: exp[a] = b
            if None in r.values(): return f"assigning {a!r}={b!r} left a null entry"
            if dict(r) != exp: return f"after assigning {a!r}={b!r}: {dict(r)}, expected {exp}"
        if src != d: return f"assignment changed the source dictionary to {src}"
        for a, v in r.items():
            if isinstance(v, (dict, list)) and src and a in src and a not in kw and src[a] is v: return f"the value of {a!r} is shared with the source dictionary"
        return None
    if k == "loc":
        st, r = outcome(lambda: RedirectResponse(c[1], headers=c[2]) if c[2] is not None else RedirectResponse(c[1]))
        if st != "ok": return f"RedirectResponse({c[1]!r}) raised {r!r}"
        loc = r.headers.get("Location")
        bad = set(loc or "\0") - SAFE
        if bad: return f"RedirectResponse({c[1]!r}) has the Location {loc!r} with the characters {sorted(bad)}"
        if not set(c[1]) - SAFE and loc != c[1]: return f"RedirectResponse({c[1]!r}) has the Location {loc!r}"
        from urllib.parse import unquote_plus, unquote
        if "%" not in c[1] and unquote(loc.replace("+", " ") if "+" not in c[1] else loc) != c[1] and unquote(loc) != c[1] and unquote_plus(loc) != c[1] and "+" not in c[1]: return f"RedirectResponse({c[1]!r}) has the Location {loc!r}, which decodes to something else"
        if not 300 <= r.status_code < 400: return f"RedirectResponse has the status {r.status_code}"
        for a, b in (c[2] or {}).items():
            if b is not None and r.headers.get(a) != b: return f"RedirectResponse lost the header {a}: {r.headers}"
        if None in r.headers.values(): return f"RedirectResponse has a null header: {r.headers}"
        return None
    if k == "json":
        _, s, h, b = c
        h0 = copy.deepcopy(h)
        st, r = outcome(JSONResponse, s, h, b)
        if st != "ok": return f"JSONResponse({b!r}) raised {r!r}"
        if h != h0: return f"JSONResponse changed the headers dictionary to {h}"
        try: x = json.loads(r.body)
        except Exception: return f"JSONResponse({b!r}) has the body {r.body!r}"
        if x != b or not isinstance(r.body, bytes): return f"JSONResponse({b!r}) has the body {r.body!r}"
        ct = (h or {}).get("Content-Type") or "application/json"
        if r.headers.get("Content-Type") != ct and "Content-Type" not in (h or {}): return f"JSONResponse has the headers {r.headers}"
        if None in r.headers.values(): return f"JSONResponse has a null header: {r.headers}"
        if r.status_code != s: return f"JSONResponse has the status {r.status_code}"
        for a, v in (h or {}).items():
            if v is not None and r.headers.get(a) != v: return f"JSONResponse lost the header {a}: {r.headers}"
        return None
    _, e, kw = c
    st, x = outcome(lambda: getattr(X, e)(**kw))
    if st != "ok": return f"{e}(**{kw}) raised {x!r}"
    code = kw.get("error") or dict(zip(ERR, CODES)).get(e)
    exp = {a: b for a, b in dict(error=code, error_description=kw.get("description"), error_uri=kw.get("uri"), state=kw.get("state")).items() if b is not None}
    st, d = outcome(x.dump)
    if st != "ok" or dict(d) != exp: return f"{e}(**{kw}).dump() = {d}, expected {exp}"
