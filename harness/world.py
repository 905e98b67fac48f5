"""An in-memory authorization server around the real psion code: adapter, clients, codes, users; every adapter call is logged."""
import asyncio, base64, copy, hashlib, json, os, time
from datetime import datetime, timedelta
from urllib.parse import parse_qsl, quote, urlencode, urlsplit
from .core import *
from psion.oauth2.adapter import BaseAdapter
from psion.oauth2.exceptions import *
from psion.oauth2.grants import *
from psion.oauth2.mixins import *
from psion.oauth2.models import *
from psion.oauth2.providers import BaseProvider

_loop = asyncio.new_event_loop()
def drive(coro): return _loop.run_until_complete(coro)

class Tz:
    """Runs a block under another host time zone."""
    def __init__(self, tz): self.tz = tz
    def __enter__(self):
        self.old = os.environ.get("TZ")
        if self.tz: os.environ["TZ"] = self.tz; time.tzset()
    def __exit__(self, *a):
        if self.tz:
            if self.old is None: os.environ.pop("TZ", None)
            else: os.environ["TZ"] = self.old
            time.tzset()

TZS = [None, "JST-9", "EST5", "XXX-14", "YYY12"]

class Client(ClientMixin):
    def __init__(self, cid, d): self.cid, self.d = cid, d
    def get_client_id(self): return self.cid
    def get_client_secret(self): return self.d["secret"]
    def get_allowed_scopes(self, scopes):
        if scopes is None: return list(self.d["default"])
        if self.d.get("order"): return [s for s in self.d["scopes"] if s in scopes]
        return [s for s in scopes if s in self.d["scopes"]]
    def get_redirect_uris(self): return list(self.d["uris"])
    def get_token_endpoint_auth_method(self): return self.d["auth"]
    def get_grant_types(self): return list(self.d["grants"])
    def get_response_types(self): return list(self.d["rtypes"])

class User(UserMixin):
    def __init__(self, uid): self.uid = uid
    def get_user_id(self): return self.uid

class Code(AuthorizationCodeMixin):
    def __init__(self, d): self.d = d
    def get_client_id(self): return self.d["client"]
    def get_user_id(self): return self.d["user"]
    def get_redirect_uri(self): return self.d["uri"]
    def get_scopes(self): return list(self.d["scopes"])
    def get_code_challenge(self): return self.d["challenge"]
    def get_code_challenge_method(self): return self.d["method"]
    def get_nonce(self): return self.d.get("nonce")
    def get_auth_time(self): return self.d.get("auth_time")
    def get_expiration(self): return datetime.utcfromtimestamp(int(time.time())) + timedelta(seconds=self.d["ttl"])

class RT(RefreshTokenMixin):
    def __init__(self, t, d): self.t, self.d = t, d
    def get_refresh_token(self): return self.t
    def get_client_id(self): return self.d["client"]
    def get_user_id(self): return self.d["user"]
    def get_scopes(self): return list(self.d["scopes"])
    def get_expiration(self): return datetime.utcfromtimestamp(int(time.time())) + timedelta(seconds=self.d["ttl"])

class Boom(Exception): pass
class Abort(BaseException): pass
FAULTS = {"error": Boom, "oauth": ServerError, "abort": Abort, "invalid_request": InvalidRequest, "keyerror": KeyError, "client": InvalidClient}

class Rec:
    def __init__(self): self.status = self.headers = self.body = self.raised = self.raw = None
    @property
    def location(self): return (self.headers or {}).get("Location")
    def __repr__(self): return f"raised {self.raised!r}" if self.raised is not None else f"{self.status} {dict(self.headers or {})} {self.body!r}"[:500]

GRANTS = {"code": AuthorizationCodeGrant, "refresh": RefreshTokenGrant, "cc": ClientCredentialsGrant}

class World:
    def __init__(self, w, keys=None, extra_grants=()):
        self.w = w
        self.log = []
        self.fault = None            # (index of the adapter call, kind)
        self.calls = 0
        W = self
        self.clients = {c: Client(c, d) for c, d in w["clients"].items()}
        self.users = {u: User(u) for u in w["users"]}
        self.codes = {c: Code(d) for c, d in w.get("codes", {}).items()}
        self.rts = {t: RT(t, d) for t, d in w.get("rts", {}).items()}
        self.n = 0
        async def step(name, *args):
            i = W.calls; W.calls += 1
            W.log.append((name,) + args)
            if w.get("slow"): await asyncio.sleep(0)
            if W.fault and W.fault[0] == i:
                W.faulted = name
                raise FAULTS[W.fault[1]]()
        class A(BaseAdapter):
            world = self
            async def find_user(self, user_id):
                await step("find_user", user_id); return W.users.get(user_id)
            async def find_client(self, client_id):
                await step("find_client", client_id); return W.clients.get(client_id)
            async def save_authorization_code(self, code, data, client, user):
                await step("save", code, copy.deepcopy(dict(data)), client, user)
                W.codes[code] = Code(dict(client=client.get_client_id(), user=user.get_user_id(), uri=data["redirect_uri"], scopes=list(data["scopes"]), challenge=data["code_challenge"], method=data["code_challenge_method"], nonce=data.get("nonce"), ttl=600))
            async def get_authorization_code(self, code):
                await step("get_code", code); return W.codes.get(code)
            async def delete_authorization_code(self, code):
                await step("delete_code", code); W.codes.pop(code, None)
            async def create_access_token(self, client, resource_owner, scopes):
                await step("create_access", client, resource_owner, None if scopes is None else list(scopes)); W.n += 1; return f"AT{W.n}"
            async def create_refresh_token(self, client, user, scopes):
                await step("create_refresh", client, user, None if scopes is None else list(scopes)); W.n += 1; return f"RT{W.n}"
            async def get_refresh_token(self, refresh_token):
                await step("get_refresh", refresh_token); return W.rts.get(refresh_token)
            async def revoke_token(self, client, token, token_type_hint=None):
                await step("revoke", client, token, token_type_hint)
            async def get_userinfo(self, user, scopes):
                await step("userinfo", user, list(scopes)); return dict(w.get("userinfo", {"sub": user.get_user_id()}))
            async def get_key_info(self):
                await step("key_info"); return {"key": keys, "alg": w["alg"]}
        class P(BaseProvider):
            async def create_request(self, request): return request
            async def create_response(self, response): return response
        self.provider = P(w["issuer"], adapter=A, grants=[GRANTS[x] for x in w["grants"]] + list(extra_grants), scopes=[Scope(s) for s in w["scopes"]] if w.get("scope_objects", True) else list(w["scopes"]),
                          keyset=None, error_url=w["error_url"], token_lifespan=w["lifespan"], id_token_lifespan=w.get("id_lifespan", 36000))

    def names(self, *ns): return [e for e in self.log if e[0] in ns]

    def request(self, q):
        return Request(q["method"], q["url"], q["headers"], q["body"], self.users.get(q.get("user")) if q.get("user") is not None else None)

    def call(self, endpoint, q):
        r = Rec()
        try:
            req = self.request(q)
        except Exception as e:
            r.raised = e; r.raw = "request"; return r
        p = self.provider
        f = {"token": p.token, "authorize": p.authorize, "revoke": p.revoke, "consent": p.authorize.get_consent_data}[endpoint]
        try:
            out = drive(f(req))
        except (Exception, Abort) as e:
            r.raised = e; return r
        r.raw = out
        r.req = req
        if isinstance(out, Response):
            r.status, r.headers, r.body = out.status_code, dict(out.headers), out.body
        return r

def js(r):
    try: return json.loads(r.body)
    except Exception: return None

# ------------------------------------------------------------------ reference semantics
def form(q):
    b = q["body"]
    if b is None: return {}
    try: t = b.decode()
    except UnicodeDecodeError: t = base64.urlsafe_b64encode(b).rstrip(b"=").decode()
    return dict(parse_qsl(t))
def query(q): return dict(parse_qsl(urlsplit(q["url"]).query))
def params(q): return {**query(q), **form(q)}

def basic(q):
    h = {k.lower(): v for k, v in q["headers"].items()}.get("authorization")
    if not h or " " not in h: return None
    p = h.split(None, 1)
    if len(p) != 2 or p[0].lower() != "basic": return None
    try: raw = base64.b64decode(p[1])
    except Exception: return None
    try: t = raw.decode()
    except UnicodeDecodeError: return None
    if ":" not in t: return None
    c, s = t.split(":", 1)
    return (c, s) if c and s else None

def ref_auth(w, q, methods=None):
    """(clients the request may be authenticated as, whether that answer is definite)"""
    ok, tried = set(), 0
    f = form(q)
    C = w["clients"]
    allow = lambda m: not methods or m in methods
    b = basic(q)
    cid, sec = f.get("client_id"), f.get("client_secret")
    if b:
        tried += 1
        if allow("client_secret_basic") and b[0] in C and C[b[0]]["secret"] == b[1] and C[b[0]]["auth"] == "client_secret_basic": ok.add(b[0])
    if cid and sec:
        tried += 1
        if allow("client_secret_post") and cid in C and C[cid]["secret"] == sec and C[cid]["auth"] == "client_secret_post": ok.add(cid)
    if cid and sec is None:
        tried += 1
        if allow("none") and cid in C and C[cid]["secret"] is None and C[cid]["auth"] == "none": ok.add(cid)
    return ok, tried <= 1

GM = {"cc": ["client_secret_basic", "client_secret_post"], "code": None, "refresh": None}
GT = {"cc": "client_credentials", "code": "authorization_code", "refresh": "refresh_token"}

def s256(v): return base64.urlsafe_b64encode(hashlib.sha256(v.encode()).digest()).rstrip(b"=").decode()
def pkce(method, challenge, verifier):
    if method == "plain": return challenge == verifier
    if method == "S256":
        try: verifier.encode("ascii")
        except UnicodeEncodeError: return False
        return challenge == s256(verifier)
    return False

# ------------------------------------------------------------------ scenarios
def b64(s): return base64.b64encode(s.encode()).decode()

VER = "v" * 50
CLIENT = dict(secret="s3cret", auth="client_secret_basic", uris=["https://c1.example/cb"], grants=["authorization_code", "refresh_token", "client_credentials"], rtypes=["code"], scopes=["openid", "profile", "email"], default=["profile"])

def world(**kw):
    d = dict(issuer="https://as.example", scopes=["openid", "profile", "email", "admin"], grants=["code", "refresh", "cc"], error_url="https://as.example/error", lifespan=3600, id_lifespan=7200,
             clients={"c1": dict(CLIENT), "c2": dict(CLIENT, secret="other", uris=["https://c2.example/cb"])}, users=["u1", "u2"], codes={}, rts={})
    d.update(kw)
    return copy.deepcopy(d)

def req(f=None, q=None, cid="c1", secret="s3cret", how="basic", method="POST", user=None, path="https://as.example/token", scheme="Basic", header="Authorization"):
    f, q, h = dict(f or {}), dict(q or {}), {}
    if how == "basic" and cid is not None: h[header] = f"{scheme} " + b64(f"{cid}:{secret}")
    elif how == "post":
        if cid is not None: f.setdefault("client_id", cid)
        if secret is not None: f.setdefault("client_secret", secret)
    elif how == "none": f.setdefault("client_id", cid)
    elif how == "query": q["client_id"], q["client_secret"] = cid, secret
    f = {k: v for k, v in f.items() if v is not None}
    q = {k: v for k, v in q.items() if v is not None}
    return dict(method=method, url=path + ("?" + urlencode(q) if q else ""), headers=h, body=urlencode(f).encode() if method == "POST" else None, user=user)

def combos(g, spec, nrand=3):
    """spec: {field: (valid values, mutants)}. The baseline variants, every single mutant, then random mixtures for ever."""
    fields = list(spec)
    base = {k: v[0][0] for k, v in spec.items()}
    yield dict(base)
    for k in fields:
        for m in list(spec[k][0][1:]) + list(spec[k][1]): yield {**base, k: m}
    while True:
        c = {k: g.one(spec[k][0]) for k in fields}
        for k in g.r.sample(fields, min(len(fields), g.one(0, 1, 1, 1, 2, 2, 3))):
            if spec[k][1]: c[k] = g.one(spec[k][1])
            if callable(c[k]): c[k] = c[k](g)
        for k in fields:
            if callable(c[k]): c[k] = c[k](g)
        yield c

AUTHS = (["basic", "post", "none"], ["wrong", "wrongpost", "nouser", "nopost", "query", "absent", "mixed", "otherclient", "lower", "empty", "prefix", "suffix", "nonesecret", "nonebasic", "wrongmethod", "case", "bodyid", "upper"])

def with_auth(w, kind, f, q=None, cid="c1", **kw):
    """Authenticate as client cid by the given (possibly wrong) way; may change the registration to suit."""
    c = w["clients"][cid]
    s = c["secret"] or "s3cret"
    R = lambda **k: req(f, q, **{**kw, **k})
    def reg(auth, secret=s): c["auth"], c["secret"] = auth, secret
    if kind == "basic": reg("client_secret_basic"); return R(cid=cid, secret=s)
    if kind == "lower": reg("client_secret_basic"); return R(cid=cid, secret=s, scheme="basic", header="authorization")
    if kind == "upper": reg("client_secret_basic"); return R(cid=cid, secret=s, scheme="BASIC", header="AUTHORIZATION")
    if kind == "post": reg("client_secret_post"); return R(cid=cid, secret=s, how="post")
    if kind == "none": reg("none", None); return R(cid=cid, how="none")
    if kind == "wrong": reg("client_secret_basic"); return R(cid=cid, secret="bad")
    if kind == "wrongpost": reg("client_secret_post"); return R(cid=cid, secret="bad", how="post")
    if kind == "nouser": return R(cid="ghost", secret=s)
    if kind == "nopost": return R(cid="ghost", secret=s, how="post")
    if kind == "query": reg("client_secret_post"); return R(cid=cid, secret=s, how="query")
    if kind == "absent": return R(how="absent")
    if kind == "mixed":
        reg("client_secret_basic"); r = R(cid="c2", secret=s); r["body"] = urlencode({**{k: v for k, v in f.items() if v is not None}, "client_id": cid, "client_secret": s}).encode(); return r
    if kind == "otherclient": return R(cid="c2", secret=w["clients"]["c2"]["secret"])
    if kind == "empty": reg("client_secret_basic"); return R(cid=cid, secret="")
    if kind == "prefix": reg("client_secret_basic"); return R(cid=cid, secret=s[:-1])
    if kind == "suffix": reg("client_secret_post"); return R(cid=cid, secret=s + "x", how="post")
    if kind == "nonesecret": reg("none"); return R(cid=cid, how="none")
    if kind == "nonebasic": reg("client_secret_basic"); return R(cid=cid, how="none")
    if kind == "wrongmethod": reg("client_secret_post"); return R(cid=cid, secret=s)
    if kind == "case": reg("client_secret_basic"); return R(cid=cid, secret=s.upper())
    if kind == "bodyid": reg("none", None); return R(cid=cid, secret="x", how="post")
    raise AssertionError(kind)

TEXT = lambda g: g.text(nonempty=True)

CODE_SPEC = dict(
    code=(["CODE"], ["", None, "OTHER", "CODE2", "code", "CODE ", TEXT]),
    uri=(["https://c1.example/cb"], ["", None, "https://c1.example/cb/", "https://c1.example/c", "https://evil.example/cb", "https://c1.example/cb2", "HTTPS://c1.example/cb", "https://c1.example/cb?x=1", TEXT]),
    uris=([["https://c1.example/cb"], ["https://c1.example/cb2", "https://c1.example/cb"]], [[], ["https://c1.example/cb2"], ["https://c1.example/cb/extra"]]),
    curi=(["https://c1.example/cb"], ["https://c1.example/cb2", "https://c1.example/cb/", "https://c1.example/cb/extra", "", None]),
    verifier=([VER], ["", None, VER + "x", VER[:-1], "é" * 43, s256(VER), VER.upper(), TEXT]),
    method=(["S256", "plain"], ["s256", "PLAIN", None, "", "none", "S512"]),
    challenge=(["match"], ["swap", "other", "", None, "pad", "std"]),
    cclient=(["c1"], ["c2", "C1", None, ""]),
    cuser=(["u1", "u2"], ["ghost", None]),
    ttl=([3600, 600, 20], [-1, 0, -3600, -40000, 40000, -5]),
    scopes=([["profile"], ["openid", "profile"], ["email", "profile", "openid"]], [[], ["admin"], ["profile", "profile"]]),
    cgrants=([["authorization_code"], ["authorization_code", "refresh_token"], ["refresh_token", "authorization_code", "client_credentials"]], [["refresh_token"], [], ["authorization_code_x"], ["client_credentials"]]),
    grants=([["code", "refresh", "cc"], ["code"]], [["refresh"], ["cc", "refresh"]]),
    gtype=(["authorization_code"], ["", None, "Authorization_code", "refresh_token", "code", "implicit", TEXT]),
    auth=AUTHS,
    place=(["body"], ["query", "both"]),
    tz=(TZS, []),
    lifespan=([3600, 60], [0, 1]),
)

def build_code(c):
    v = c["verifier"]
    ch = {"match": (s256(VER) if c["method"] != "plain" else VER), "swap": (VER if c["method"] != "plain" else s256(VER)), "other": s256("w" * 50), "pad": s256(VER) + "=", "std": base64.b64encode(hashlib.sha256(VER.encode()).digest()).decode()}.get(c["challenge"], c["challenge"])
    w = world(grants=c["grants"], lifespan=c["lifespan"])
    w["clients"]["c1"].update(uris=c["uris"], grants=c["cgrants"])
    w["codes"] = {"CODE": dict(client=c["cclient"], user=c["cuser"], uri=c["curi"], scopes=c["scopes"], challenge=ch, method=c["method"], ttl=c["ttl"], nonce=c.get("nonce")),
                  "CODE2": dict(client="c2", user="u2", uri="https://c2.example/cb", scopes=["admin"], challenge=s256(VER), method="S256", ttl=3600)}
    f = dict(grant_type=c["gtype"], code=c["code"], redirect_uri=c["uri"], code_verifier=v)
    q = None
    if c["place"] == "query": q, f = f, {}
    elif c["place"] == "both": q = dict(code="OTHER", redirect_uri="https://evil.example/cb", grant_type="refresh_token")
    r = with_auth(w, c["auth"], f, q)
    return dict(world=w, req=r, tz=c["tz"])

RT_SPEC = dict(
    token=(["RTOK"], ["", None, "OTHER", "RTOK2", "rtok", TEXT]),
    tclient=(["c1"], ["c2", None, ""]),
    tuser=(["u1", "u2"], ["ghost", None]),
    ttl=([3600, 600, 20], [-1, 0, -3600, -40000, 40000]),
    tscopes=([["profile"], ["openid", "profile"], ["email", "profile", "openid"]], [[], ["admin"], ["profile", "admin"], ["legacy", "profile"]]),
    scope=([None, "profile"], ["email", "openid email", "profile admin", "admin", "unknown", " ", "  profile  ", "profile profile", "Profile", "profile,openid", "profil", "profile\tunknown", "openid profile email", TEXT]),
    cscopes=([["openid", "profile", "email"]], [["profile"], [], ["email"], ["openid", "email"], ["admin"], ["openid", "profile", "email", "admin"], ["openid", "profile", "email", "unknown"]]),
    order=([None, 1], []),
    cgrants=([["refresh_token"], ["authorization_code", "refresh_token"]], [["authorization_code"], [], ["client_credentials"]]),
    grants=([["code", "refresh", "cc"], ["refresh"]], [["code"]]),
    gtype=(["refresh_token"], ["", None, "Refresh_token", "authorization_code"]),
    auth=AUTHS,
    tz=(TZS, []),
    lifespan=([3600, 60], [0, 1]),
)

def build_rt(c):
    w = world(grants=c["grants"], lifespan=c["lifespan"])
    w["clients"]["c1"].update(grants=c["cgrants"], scopes=c["cscopes"], order=c["order"])
    w["rts"] = {"RTOK": dict(client=c["tclient"], user=c["tuser"], scopes=c["tscopes"], ttl=c["ttl"]), "RTOK2": dict(client="c2", user="u2", scopes=["admin"], ttl=3600)}
    r = with_auth(w, c["auth"], dict(grant_type=c["gtype"], refresh_token=c["token"], scope=c["scope"]))
    return dict(world=w, req=r, tz=c["tz"])

CC_SPEC = dict(
    scope=([None, "profile", "profile email", "openid"], ["admin", "unknown", " ", "profile admin", "Profile", "profile profile", "email profile openid", "prof", "profile\nemail", TEXT]),
    cscopes=([["openid", "profile", "email"]], [["profile"], [], ["admin"], ["unknown"], ["email", "profile"], ["openid", "profile", "email", "unknown"]]),
    default=([["profile"], ["profile", "email"]], [[], ["admin"]]),
    order=([None, 1], []),
    sscopes=([["openid", "profile", "email", "admin"]], [["profile"], [], ["openid profile email"]]),
    cgrants=([["client_credentials"], ["client_credentials", "refresh_token"]], [["authorization_code"], [], ["refresh_token"]]),
    grants=([["code", "refresh", "cc"], ["cc"]], [["code", "refresh"]]),
    gtype=(["client_credentials"], ["", None, "refresh_token", "password"]),
    auth=(["basic", "post"], ["none"] + AUTHS[1]),
    lifespan=([3600, 60], [0, 1]),
)

def build_cc(c):
    w = world(grants=c["grants"], lifespan=c["lifespan"], scopes=c["sscopes"])
    w["clients"]["c1"].update(grants=c["cgrants"], scopes=c["cscopes"], default=c["default"], order=c["order"])
    return dict(world=w, req=with_auth(w, c["auth"], dict(grant_type=c["gtype"], scope=c["scope"])), tz=None)

STATE = lambda g: g.one([g.text(nonempty=True), g.text(nonempty=True) + g.text(), "xyz", "a&error=b", "a=b&code=c", "#frag", "é ü", "a+b c%20d", "100%", "x\r\nSet-Cookie: a=b"])
CH = "a" * 43
AUTHZ_SPEC = dict(
    client=(["c1"], ["c2", "ghost", "", None, "C1", TEXT]),
    uri=(["https://c1.example/cb", "https://c1.example/cb?tenant=1", "myapp://cb"], ["", None, "https://evil.example/", "https://c1.example/cb/", "https://c1.example/cb2", "https://c1.example/c", "https://c1.example/cb?x=1", "https://c1.example/cb@evil.example/", "//evil.example", "https://c1.example/cb.evil", "HTTPS://C1.EXAMPLE/CB", "https://as.example/error", "javascript:alert(1)", TEXT]),
    uris=([["https://c1.example/cb", "https://c1.example/cb?tenant=1", "myapp://cb"]], [[], ["https://c1.example/cb/deeper", "https://c1.example/cb?tenant=10"], ["https://c1.example/cb"]]),
    rtype=(["code"], ["", None, "token", "Code", "code token", "none", TEXT]),
    crtypes=([["code"], ["token", "code"]], [[], ["token"], ["code_x"]]),
    user=(["u1", "u2"], [None]),
    challenge=([CH, "b" * 128, "c" * 60], ["", None, "a" * 42, "a" * 129, "é" * 43, "a", "é" * 42, TEXT]),
    method=(["S256", "plain"], [None, "", "s256", "none", "S512", "plain ", TEXT]),
    scope=(["profile", "openid profile", "email  profile", "openid profile email"], ["", None, " ", "admin", "unknown", "profile admin", "profile unknown", "Profile", "profile\tunknown", "prof", "profile,email", TEXT]),
    cscopes=([["openid", "profile", "email"]], [["profile"], [], ["admin"], ["email", "openid"]]),
    order=([None, 1], []),
    state=([None, "st8", STATE, STATE], [STATE, " ", "0"]),
    nonce=([None, "n0nce", STATE], [STATE]),
    grants=([["code", "refresh", "cc"], ["code"]], [["cc"], []]),
    place=(["query", "body"], ["both"]),
    error_url=(["https://as.example/error", "https://as.example/error?lang=en"], []),
    oidc=([False, True], []),
)

def build_authz(c):
    w = world(grants=c["grants"], error_url=c["error_url"])
    w["clients"]["c1"].update(uris=c["uris"], rtypes=c["crtypes"], scopes=c["cscopes"], order=c["order"])
    f = dict(client_id=c["client"], redirect_uri=c["uri"], response_type=c["rtype"], code_challenge=c["challenge"], code_challenge_method=c["method"], scope=c["scope"], state=c["state"], nonce=c["nonce"])
    p = "https://as.example/authorize"
    if c["place"] == "query": r = req({}, f, how="absent", method="GET", user=c["user"], path=p)
    elif c["place"] == "body": r = req(f, {}, how="absent", user=c["user"], path=p)
    else: r = req(f, dict(redirect_uri="https://evil.example/", state="evil", client_id="c2", scope="admin"), how="absent", user=c["user"], path=p)
    return dict(world=w, req=r, oidc=c["oidc"])

def run_authz(case, endpoint="authorize"):
    W = World(case["world"])
    if case.get("oidc"):
        from psion.oidc.flows.authorization_code import AuthorizationCodeFlow
        W.provider.add_hook(AuthorizationCodeGrant, AuthorizationCodeFlow)
    return W, W.call(endpoint, case["req"])

def ref_authz(w, q):
    """('page'|'client', client id): where an error must go; 'ok' only says the client and URI are valid."""
    d = params(q)
    cid, uri, rt = d.get("client_id"), d.get("redirect_uri"), d.get("response_type")
    if not cid or not uri or not rt or cid not in w["clients"]: return "page"
    if uri not in w["clients"][cid]["uris"]: return "page"
    return "client"

def ref_scopes(w, cid, scopes):
    c = w["clients"][cid]
    return all(s in w["scopes"] for s in scopes) and all(s in c["scopes"] for s in scopes)

def authz_valid(w, q):
    """All the conditions under which a code may be saved."""
    d = params(q)
    if ref_authz(w, q) != "client" or q.get("user") is None: return False
    c = w["clients"][d["client_id"]]
    if d["response_type"] not in c["rtypes"] or d["response_type"] != "code" or "code" not in w["grants"]: return False
    ch = d.get("code_challenge")
    if not ch or not 43 <= len(ch) <= 128 or d.get("code_challenge_method") not in ("plain", "S256"): return False
    if not d.get("scope"): return False
    return ref_scopes(w, d["client_id"], d["scope"].split())

def run_token(case, fault=None):
    with Tz(case.get("tz")):
        W = World(case["world"])
        W.fault = fault
        return W, W.call("token", case["req"])

def created(W): return W.names("create_access", "create_refresh")
