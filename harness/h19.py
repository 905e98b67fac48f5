from .world import *
RULE = "authorization code presentations, each with a storage fault injected at every adapter call in turn (errors, OAuth errors, aborts), and presented twice; distinct by world, request and fault"
def cases(g):
    it = combos(g, CODE_SPEC)
    while True:
        c = build_code(next(it))
        yield dict(c, fault=None, oidc=g.maybe(0.3))
        for i in range(9):
            yield dict(c, fault=(i, g.one(list(FAULTS))), oidc=g.maybe(0.3))

def hook(kind):
    class H:
        def __init__(self, adapter, config): self.adapter = adapter
        async def token_request(self, data):
            await self.adapter.get_userinfo(User("u1"), ["hook1"])
            return {"extra": "1"}
        async def token_response(self, token, data, client, user):
            await self.adapter.get_userinfo(user, ["hook2"])
            return {"x": "y"}
    return H

def judge(c):
    w, q = c["world"], c["req"]
    with Tz(c.get("tz")):
        W = World(w)
        if c.get("oidc"): W.provider.add_hook(AuthorizationCodeGrant, hook(1))
        W.fault = c["fault"]
        ran = []
        gr = next((x for x in W.provider.grants if isinstance(x, AuthorizationCodeGrant)), None)
        # the grant is entered when the endpoint calls it; observed by wrapping its public method
        if gr is not None:
            orig = gr.token
            async def spy(data, client):
                ran.append(dict(data)); return await orig(data, client)
            gr.token = spy
        r = W.call("token", q)
        if not ran: return None
        code = ran[0].get("code")
        if not code or not isinstance(code, str): 
            return f"a deletion without a code: {W.names('delete_code')}" if W.names("delete_code") else None
        dels = [e[1] for e in W.names("delete_code")]
        where = f"code {code!r}, request {params(q)}, fault {c['fault']} ({getattr(W, 'faulted', None)}), answer {r}, calls {[e[0] for e in W.log]}"
        if dels != [code]: return f"deletions {dels} instead of exactly one of the presented code: {where}"
        if c["fault"] is None:
            n = len(created(W))
            mark = len(W.log)
            r2 = W.call("token", q)
            again = [e for e in W.log[mark:] if e[0].startswith("create_")]
            if again or r2.status == 200: return f"the second presentation yields tokens {r2}: {where}"
        return None
