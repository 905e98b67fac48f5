from .world import *
from .h22 import targets
RULE = "authorization and consent requests with states of every kind of character; distinct by world, request and endpoint"
def cases(g):
    it = combos(g, AUTHZ_SPEC)
    while True:
        c = build_authz(next(it))
        yield dict(c, ep="authorize")
        if g.maybe(0.4): yield dict(c, ep="consent")

def judge(c):
    w, q = c["world"], c["req"]
    W, r = run_authz(c, c["ep"])
    d = params(q)
    if r.raised is not None or not r.location: return None
    if ref_authz(w, q) == "page": return None
    loc = r.location
    if not targets(loc, d["redirect_uri"]): return None      # C22's business
    where = f"request {d}, redirect {loc!r}"
    u = urlsplit(loc)
    ps = parse_qsl(u.query, keep_blank_values=True)
    own = parse_qsl(urlsplit(d["redirect_uri"]).query, keep_blank_values=True)
    if ps[:len(own)] != own: return f"the registered URI's own parameters {own} are not preserved: {where}"
    rest = ps[len(own):]
    if u.fragment: return f"the parameters are cut off by a fragment: {where}"
    st = [v for k, v in rest if k == "state"]
    want = [d["state"]] if d.get("state") else []
    if st != want: return f"state {st} instead of {want}: {where}"
    saves = W.names("save")
    code = [v for k, v in rest if k == "code"]
    err = [v for k, v in rest if k == "error"]
    if saves:
        if code != [saves[0][1]]: return f"code {code}, issued {saves[0][1]!r}: {where}"
        if err: return f"an error beside the code: {where}"
        if {k for k, _ in rest} - {"code", "state"}: return f"unexpected parameters: {where}"
    else:
        if code: return f"a code that was not issued: {where}"
        if len(err) != 1 or not err[0]: return f"no error code: {where}"
        if {k for k, _ in rest} - {"error", "error_description", "error_uri", "state"}: return f"unexpected parameters: {where}"
