from .world import *
RULE = "authorization requests and consent requests: valid ones and ones with one to three fields changed; distinct by world, request and endpoint"
def cases(g):
    it = combos(g, AUTHZ_SPEC)
    while True:
        c = build_authz(next(it))
        yield dict(c, ep="authorize"); yield dict(c, ep="consent")

def targets(loc, base):
    """Whether loc is base followed only by added query parameters."""
    if not base or not isinstance(loc, str): return False
    b = quote(base, safe=":/%#?&=@[]!$'()*+,;")
    for x in {base, b}:
        if loc == x or loc.startswith(x + ("&" if "?" in x else "?")) or loc.startswith(x + "?"):
            return True
    return False

def judge(c):
    w, q = c["world"], c["req"]
    W, r = run_authz(c, c["ep"])
    d = params(q)
    where = f"request {d}, user {q.get('user')!r}, registered {w['clients'].get(d.get('client_id'), {}).get('uris')}"
    if r.raised is not None: return f"raised {r.raised!r}: {where}" if c["ep"] == "authorize" and isinstance(r.raised, (OAuth2Error, KeyError)) else None
    if c["ep"] == "consent" and isinstance(r.raw, dict):
        if ref_authz(w, q) == "page": return f"consent data for an unknown client or unregistered redirect URI: {where}"
        return None
    loc = r.location
    if not loc: return f"the answer is not a redirect: {r}: {where}"
    if not 300 <= r.status < 400: return f"status {r.status}: {where}"
    page = targets(loc, w["error_url"])
    reg = [u for u in w["clients"].get(d.get("client_id"), {}).get("uris", []) if targets(loc, u)]
    if ref_authz(w, q) == "page":
        if not page or (reg and not page): return f"redirected to {loc!r} instead of the error page: {where}"
        return None
    if not page and not (d.get("redirect_uri") in reg): return f"redirected to {loc!r}, which is neither the error page nor the registered URI of the request: {where}"
