from .world import *
import random as _random
RULE = "authorization requests: valid ones and ones with one to three fields changed, with and without OpenID Connect; each judged with the global random generator re-seeded; distinct by world and request"
URL64 = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_")
SEEN = {}
def cases(g):
    it = combos(g, AUTHZ_SPEC)
    while True: yield build_authz(next(it))

def judge(c):
    w, q = c["world"], c["req"]
    d = params(q)
    codes = []
    for _ in range(2):
        _random.seed(7)
        W, r = run_authz(c)
        saves = W.names("save")
        where = f"request {d}, user {q.get('user')!r}, client {w['clients'].get(d.get('client_id'))}, server scopes {w['scopes']}"
        ok = authz_valid(w, q)
        if saves and not ok: return f"a code was saved though the request does not qualify: {where}"
        if len(saves) > 1: return f"{len(saves)} codes saved: {where}"
        if r.raised is not None and saves: return f"raised {r.raised!r} after saving: {where}"
        if not saves:
            loc = r.location or ""
            if "code" in dict(parse_qsl(urlsplit(loc).query)): return f"a code was sent without being saved: {loc}"
            if ok: return f"a qualifying request was refused: {r}: {where}"
            return None
        _, code, data, cl, us = saves[0]
        if not isinstance(code, str) or len(code) != 64 or set(code) - URL64: return f"the code {code!r} is not 64 URL-safe characters"
        exp = dict(code_challenge=d["code_challenge"], code_challenge_method=d["code_challenge_method"], redirect_uri=d["redirect_uri"], scopes=d["scope"].split(), state=d.get("state"))
        if c.get("oidc") and d.get("nonce"): exp["nonce"] = d["nonce"]
        norm = lambda x: {k: v for k, v in x.items() if v is not None}
        if norm(data) != norm(exp): return f"saved {data}, the request says {exp}: {where}"
        if getattr(cl, "cid", None) != d["client_id"] or getattr(us, "uid", None) != q["user"]: return f"saved for client {cl!r} and user {us!r}: {where}"
        sent = parse_qsl(urlsplit(r.location or "").query)
        if [v for k, v in sent if k == "code"] != [code]: return f"the code sent {sent} is not the one saved {code!r}: {where}"
        codes.append(code)
    if len(codes) == 2 and codes[0] == codes[1]: return f"the same code {codes[0]!r} was issued twice (not drawn from the system generator)"
