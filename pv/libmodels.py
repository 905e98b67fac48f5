"""Models (assumed contracts) of the standard library and of the cryptography package, and of objects known
only through their interface. Everything here is trusted and reported as an assumption."""
import ast, base64, binascii, datetime as dtm, errno, hashlib, hmac as pyhmac, json, os, secrets, struct, time, types, urllib.parse as up, warnings
from .engine import *
from .heap import *
from . import models as M
from .models import *
from .interp import conc, conc_deep, to_native, SymKw
from cryptography import exceptions as cx
from cryptography.hazmat import backends
from cryptography.hazmat.primitives import hashes, hmac as chmac, serialization as ser
from cryptography.hazmat.primitives.asymmetric import ec, padding, rsa

MODELS = {}
def model(*fs):
    def deco(g):
        for f in fs: MODELS[f] = g
        return g
    return deco

# ------------------------------------------------------------------ base64
b64u = uf("b64u", S, S)              # URL-safe alphabet, no padding
b64upad = uf("b64upad", S, S)        # URL-safe alphabet, padded
b64s = uf("b64s", S, S)              # standard alphabet, padded
ub_ok = uf("ub_ok", S, I, B)         # urlsafe_b64decode(core + "=" * n) succeeds
ub_dec = uf("ub_dec", S, S)          # ... and gives this
sb_ok = uf("sb_ok", S, B)
sb_dec = uf("sb_dec", S, S)

def b64u_of(E, x):
    x = z3.simplify(x)
    if z3.is_string_value(x): return bval(base64.urlsafe_b64encode(z3str(x).encode("latin-1")).rstrip(b"="))
    t = b64u(x)
    n = str_len(E, x)
    q = (4 * n + 2) / 3
    E.fact(z3.And(z3.Length(t) == q, ub_dec(t) == x, (t == z3.StringVal("")) == (x == z3.StringVal("")), z3.Not(z3.Contains(t, z3.StringVal("."))), is_ascii(t)))
    for k in range(0, 4):
        E.fact(z3.Implies(z3.IntVal(k) >= (4 - q % 4) % 4, ub_ok(t, z3.IntVal(k))))
    return t
LEN_FACTS["b64u"] = lambda E, s: (b64u_of(E, s.arg(0)), None)[1]

def need_bytes(E, v, allow_str=False):
    if isinstance(v, (bytearray, memoryview)): raise Unsupported("bytearray")
    k = E.need(v, ("bytes", "str") if allow_str else ("bytes",))
    return k

@model(base64.urlsafe_b64encode)
def _(E, a, k):
    need_bytes(E, a[0])
    s = E.str_t(a[0])
    if isinstance(a[0], bytes): return base64.urlsafe_b64encode(a[0])
    t = b64upad(s)
    E.fact(is_ascii(t))
    return E.mky(t)
ALPHABET["b64upad"] = URLSAFE | {"="}
ASCII_UF.add("b64upad")

@model(base64.b64encode, base64.standard_b64encode)
def _(E, a, k):
    need_bytes(E, a[0])
    if len(a) > 1 or k: raise Unsupported("b64encode altchars")
    if isinstance(a[0], bytes): return base64.b64encode(a[0])
    s = E.str_t(a[0])
    t = b64s(s)
    E.fact(z3.And(sb_ok(t), sb_dec(t) == s, is_ascii(t), (t == z3.StringVal("")) == (s == z3.StringVal(""))))
    return E.mky(t)

def split_pad(t):
    """core, number of '=' appended (a z3 Int)"""
    ps = parts(t)
    n = z3.IntVal(0)
    while ps:
        p = ps[-1]
        if z3.is_app(p) and p.decl().name() == "eqs":
            n = n + z3.If(p.arg(0) > 0, p.arg(0), z3.IntVal(0)); ps = ps[:-1]
        elif z3.is_string_value(p):
            st = z3str(p)
            core = st.rstrip("=")
            n = n + (len(st) - len(core))
            ps = ps[:-1] + ([sval(core)] if core else [])
            if core: break
        else: break
    return cat(*ps) if ps else z3.StringVal(""), z3.simplify(n)

@model(base64.urlsafe_b64decode)
def _(E, a, k):
    kd = need_bytes(E, a[0], True)
    if isinstance(a[0], (bytes, str)):
        try: return base64.urlsafe_b64decode(a[0])
        except Exception as e: raise PyRaise(e)
    t = E.str_t(a[0])
    if kd == "str" and not ascii_known(t):
        if not E.branch(is_ascii(t)): E.raise_(ValueError)
    core, n = split_pad(t)
    nm = core.decl().name() if z3.is_app(core) else ""
    if nm == "b64upad":
        b64u_of(E, core.arg(0))
        return E.mky(core.arg(0))
    if z3.is_string_value(core) and z3.is_int_value(n):
        try: return base64.urlsafe_b64decode(z3str(core) + "=" * n.as_long())
        except Exception as e: raise PyRaise(e)
    if not z3.is_int_value(n):
        # padding computed from the length: settle it (0..3 suffices for n = len % 4 and alike)
        for i in range(4):
            if E.branch(n == i):
                n = z3.IntVal(i); break
    E.fact(z3.Implies(core == z3.StringVal(""), z3.And(ub_ok(core, n), ub_dec(core) == z3.StringVal(""))))
    E.ghost.setdefault("ub", {})[core.get_id()] = core
    if not E.branch(ub_ok(core, n)): E.raise_(binascii.Error)
    r = ub_dec(core)
    return E.mky(r)

@model(base64.b64decode, base64.standard_b64decode)
def _(E, a, k):
    if len(a) > 1 or k:
        alt = a[1] if len(a) > 1 else k.get("altchars")
        if alt == b"-_" and not k.get("validate") and len(a) <= 2: return MODELS[base64.urlsafe_b64decode](E, a[:1], {})
        raise Unsupported("b64decode options")
    kd = need_bytes(E, a[0], True)
    if isinstance(a[0], (bytes, str)):
        try: return base64.b64decode(a[0])
        except Exception as e: raise PyRaise(e)
    t = E.str_t(a[0])
    if kd == "str" and not ascii_known(t):
        if not E.branch(is_ascii(t)): E.raise_(ValueError)
    if not E.branch(sb_ok(t)): E.raise_(binascii.Error)
    return E.mky(sb_dec(t))

@model(struct.unpack)
def _(E, a, k):
    v = a[1]
    if conc(a[0]) and conc(v): return struct.unpack(a[0], v)
    E.need(v, ("bytes",))
    s = E.str_t(v)
    j = E.bound(I)
    n = str_len(E, s)
    f = a[0]
    # the only format modelled is "<len>B"
    if isinstance(f, Sym):
        ft = z3.simplify(E.str_t(f))
        want = cat(pystr(Val.vint(n)), sval("B"))
        if not ft.eq(z3.simplify(want)): raise Unsupported("struct format")
    elif f == "B":
        pass
    else: raise Unsupported("struct format")
    c = Coll(j, z3.And(0 <= j, j < n), [(True, lambda v: E.mki(byte_at(s, v)))], length=n, src=("bytes", s))
    E.bytes_iter[n.get_id()] = s
    return HList(coll=c)

@model(binascii.hexlify)
def _(E, a, k):
    E.need(a[0], ("bytes",))
    return E.mky(hexs(E.str_t(a[0])))

@model(binascii.unhexlify, bytes.fromhex)
def _(E, a, k): raise Unsupported("unhexlify")

# ------------------------------------------------------------------ json
jdump = uf("jdump", Val, S)
jload = uf("jload", S, Val)
jvalid = uf("jvalid", S, B)

@model(json.dumps)
def _(E, a, k):
    v = a[0]
    if isinstance(k, SymKw): raise Unsupported("json options")
    if conc_deep(v):
        try: return json.dumps(to_native(v), **{p: to_native(x) for p, x in k.items()})
        except Exception as e: raise PyRaise(e)
    if isinstance(v, (IObj, BoundM)) or isinstance(v, HObj) and v.d is None: E.raise_(TypeError, "not JSON serializable")
    if isinstance(v, Sym) and E.kind(v) == "bytes": E.raise_(TypeError)
    t = E.term(v)
    E.assumed("values passed to json.dumps are JSON values; json.loads inverts json.dumps on them")
    s = jdump(t)
    E.fact(z3.And(jvalid(s), jload(s) == t, s != z3.StringVal("")))
    if k.get("ensure_ascii", True) is True:
        u = uf("jdump_ascii", Val, S)(t)
        E.fact(z3.And(jvalid(u), jload(u) == t, is_ascii(u), u != z3.StringVal("")))
        if set(k) - {"ensure_ascii", "separators", "sort_keys"}: raise Unsupported("json options")
        return E.mks(u)
    if set(k) - {"ensure_ascii", "separators", "sort_keys"}: raise Unsupported("json options")
    return E.mks(s)
ASCII_UF.add("jdump_ascii")

@model(json.loads)
def _(E, a, k):
    v = a[0]
    if k or len(a) > 1: raise Unsupported("json.loads options")
    if conc(v):
        try: return E.from_native(json.loads(v))
        except Exception as e: raise PyRaise(e)
    kd = E.need(v, ("str", "bytes"))
    s = E.str_t(v)
    if kd == "bytes":
        ok = valid_utf8(E, s)
        if ok is not True and not E.branch(ok): E.raise_(UnicodeDecodeError)
        s = decode_t(E, s)
    E.ghost.setdefault("json", {})[s.get_id()] = s
    dumped = z3.is_app(s) and s.decl().name() in ("jdump", "jdump_ascii")
    if not dumped and not E.branch(jvalid(s)): E.raise_(json.JSONDecodeError)
    t = z3.simplify(jload(s))
    if dumped: t = s.arg(0)
    E.fact(z3.And(z3.Not(Val.is_vobj(t)), z3.Not(Val.is_vbytes(t)), z3.Not(Val.is_absent(t))))
    mark_strkeys(E, d_arr(Val.did(t)) if kind_of_term(t) != "dict" else d_arr(t.arg(0)))
    return E.wrap(t)

# ------------------------------------------------------------------ hashes
HLEN = {"sha1": 20, "sha224": 28, "sha256": 32, "sha384": 48, "sha512": 64, "md5": 16}
def sha(name): return uf("h_" + name, S, S)
for _n, _l in HLEN.items():
    LEN_FACTS["h_" + _n] = (lambda l: lambda E, s: E.fact(z3.Length(s) == l))(_l)

def hash_ctor(name):
    def f(E, a, k):
        data = b"" if not a else a[0]
        E.need(data, ("bytes",))
        return IObj("hash", name=name, data=E.str_t(data))
    return f
for _n in HLEN:
    MODELS[getattr(hashlib, _n)] = hash_ctor(_n)

@model(hashlib.new)
def _(E, a, k):
    nm = a[0]
    if isinstance(nm, str) and nm.lower().replace("-", "") in HLEN: return hash_ctor(nm.lower().replace("-", ""))(E, a[1:], k)
    raise Unsupported("hashlib.new")

@model(pyhmac.compare_digest, secrets.compare_digest)
def _(E, a, k):
    x, y = a
    kx, ky = E.kind(x), E.kind(y)
    for v in (x, y): E.need(v, ("str", "bytes"))
    kx, ky = E.kind(x), E.kind(y)
    if kx != ky: E.raise_(TypeError)
    if kx == "str":
        for v in (x, y):
            t = E.str_t(v)
            if not ascii_known(t) and not (isinstance(v, str) and v.isascii()):
                if not E.branch(is_ascii(t)): E.raise_(TypeError)
    return E.mkb(E.eq(x, y))

@model(pyhmac.new)
def _(E, a, k):
    dm = a[2] if len(a) > 2 else k.get("digestmod")
    nm = dm if isinstance(dm, str) else getattr(dm, "__name__", "").replace("openssl_", "")
    if nm.lower() not in HLEN: raise Unsupported("hmac.new")
    E.need(a[0], ("bytes",))
    o = IObj("hmac", key=E.str_t(a[0]), hash=nm.lower(), data=z3.StringVal(""))
    if len(a) > 1 and a[1] is not None:
        E.need(a[1], ("bytes",))
        o.ghost["data"] = E.str_t(a[1])
    return o

# ------------------------------------------------------------------ randomness
rbytes = uf("rbytes", I, I, S)
rchar = uf("rchar", I, S)
def draw(E):
    E.ghost["draws"] = E.ghost.get("draws", 0) + 1
    return E.ghost["draws"]

@model(secrets.token_bytes, os.urandom)
def _(E, a, k):
    n = E.as_int(a[0]) if a and a[0] is not None else z3.IntVal(32)
    if E.branch(n < 0): E.raise_(ValueError)
    t = E.fresh("random", S)
    E.fact(z3.Length(t) == n)
    E.ghost.setdefault("random", []).append((t, n))
    return E.mky(t)

@model(secrets.token_urlsafe)
def _(E, a, k):
    n = E.as_int(a[0]) if a and a[0] is not None else z3.IntVal(32)
    t = E.fresh("random", S)
    E.fact(z3.Length(t) == n)
    E.ghost.setdefault("random", []).append((t, n))
    return E.mks(b64u_of(E, t))

@model(secrets.choice)
def _(E, a, k):
    v = a[0]
    if isinstance(v, str):
        if not v: E.raise_(IndexError)
        r = E.fresh("choice", S)
        E.fact(z3.Length(r) == 1)
        E.ghost.setdefault("choice", {})[r.get_id()] = (r, v)
        E.ghost.setdefault("choice_fn", {})[r.decl().name()] = frozenset(v)
        return E.mks(r)
    raise Unsupported("secrets.choice")

def concat_all(E, c):
    """Concatenation of a collection of one-character random choices."""
    if len(c.alts) == 1 and not callable(c.alts[0][1]):
        t = c.alts[0][1]
        if kind_of_term(t) == "str":
            s = t.arg(0)
            al = E.ghost.get("choice_fn", {}).get(s.decl().name() if z3.is_app(s) else "")
            if al is not None and c.length is not None:
                r = E.fresh("rtok", S)
                E.fact(z3.Length(r) == c.length)
                E.ghost.setdefault("rtokens", {})[r.get_id()] = (r, al)
                return E.mks(r)
    raise Unsupported("concatenation of a symbolic collection")

URL64 = frozenset("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_")
def random_text(E, t):
    """The alphabet the characters of the text are independent draws from, or None when they are not known to be."""
    g = E.ghost.get("rtokens", {}).get(t.get_id())
    if g is not None: return g[1]
    ps = []
    def flat(x):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for c in x.children(): flat(c)
        else: ps.append(x)
    flat(t)
    if len(ps) == 1 and z3.is_app(t) and t.decl().name() == "b64u":
        for r, n in E.ghost.get("random", ()):
            n = z3.simplify(n)
            if r.eq(t.arg(0)) and z3.is_int_value(n) and n.as_long() % 3 == 0: return URL64
    ch = E.ghost.get("choice", {})
    if len({x.get_id() for x in ps}) < len(ps) or not all(x.get_id() in ch for x in ps): return None
    al = {frozenset(ch[x.get_id()][1]) for x in ps}
    return al.pop() if len(al) == 1 else None

# ------------------------------------------------------------------ urllib
qenc = uf("qenc", I, S)
qs_did = uf("qs_did", S, I)
url_q = uf("url_query", S, S)
url_p = uf("url_path", S, S)
url_f = uf("url_fragment", S, S)
url_n = uf("url_netloc", S, S)
url_s = uf("url_scheme", S, S)
qp = uf("qp", S, S, S)
url_clean = uf("url_clean", S, B)    # made of RFC 3986 characters only
URL_PUNCT = set(":/?#[]@!$&'()*+,;=%")

@model(up.urlencode)
def _(E, a, k):
    if len(a) > 1 or k: raise Unsupported("urlencode options")
    v = a[0]
    if isinstance(v, (HList, tuple, DictView)):
        v = as_dict(E, v)
    d = as_dict(E, v)
    if d.concrete_keys() and not d.live(): return ""
    did = E.did(d)
    E.ghost.setdefault("qenc", []).append((did, HDict(d.base, d.layers)))
    E.fact(z3.Implies(z3.Not(d_some(did)), qenc(did) == z3.StringVal("")))
    E.assumed("urllib.parse.parse_qsl inverts urllib.parse.urlencode on non-empty text values")
    return E.mks(qenc(did))
CONTAINS_FACTS["qenc"] = lambda E, s, lit: False if any(c in " ?#\r\n\t<>\"" or ord(c) > 126 for c in lit) else None

def qsl(E, s):
    """The list of pairs of a query string, seen as a dictionary."""
    d = qs_did(s)
    A = d_arr(d)
    def ins(kt):
        x = z3.Select(A, kt)
        E.fact(z3.Or(Val.is_absent(x), z3.And(Val.is_vstr(x), Val.s(x) != z3.StringVal(""), Val.is_vstr(kt))))
    if A.get_id() not in E.insts:
        E.insts[A.get_id()] = (A, ins)
        q = E.bound(Val)
        x = z3.Select(A, q)
        E.fact(z3.ForAll([q], z3.Or(Val.is_absent(x), z3.And(Val.is_vstr(x), Val.s(x) != z3.StringVal(""), Val.is_vstr(q))), patterns=[x]))
        E.fact(z3.Implies(s == z3.StringVal(""), z3.Not(d_some(d))))
        mark_strkeys(E, A)
        E.textvals[A.get_id()] = A
    return IObj("qsl", dict=Sym(Val.vdict(d)), s=s)

@model(up.parse_qsl)
def _(E, a, k):
    v = a[0]
    if set(k) - {"keep_blank_values"} or len(a) > 2: raise Unsupported("parse_qsl options")
    kb = k.get("keep_blank_values", a[1] if len(a) > 1 else False)
    if kb is not False: raise Unsupported("parse_qsl(keep_blank_values)")
    if v is None: return HList([])
    if conc(v):
        try: return E.from_native(up.parse_qsl(v))
        except Exception as e: raise PyRaise(e)
    kd = E.kind(v)
    if kd is None:
        if E.branch(Val.is_none(v.t)): return HList([])
        kd = E.need(v, ("str", "bytes"), AttributeError)
    if kd == "bytes": raise Unsupported("parse_qsl of bytes")
    return qsl(E, z3.simplify(E.str_t(v)))

@model(up.parse_qs)
def _(E, a, k): raise Unsupported("parse_qs")

@model(up.urlparse, up.urlsplit)
def _(E, a, k):
    v = a[0]
    if len(a) > 1 or k: raise Unsupported("urlparse options")
    if conc(v):
        try: return up.urlparse(v)
        except Exception as e: raise PyRaise(e)
    E.need(v, ("str",), AttributeError)
    s = E.str_t(v)
    E.assumed("urlparse succeeds on the URL of a request")
    return IObj("url", s=s, attrs=dict(path=E.mks(url_p(s)), query=E.mks(url_q(s)), fragment=E.mks(url_f(s)), netloc=E.mks(url_n(s)), scheme=E.mks(url_s(s))))

@model(up.quote_plus, up.quote)
def _(E, a, k, plus=True):
    v = a[0]
    safe = a[1] if len(a) > 1 else k.get("safe", "")
    if not isinstance(safe, str): raise Unsupported("quote safe")
    if isinstance(v, str): return up.quote_plus(v, safe=safe)
    E.need(v, ("str",))
    out = []
    for p in parts(E.str_t(v)):
        if z3.is_string_value(p): out.append(sval(up.quote_plus(z3str(p), safe=safe)))
        elif z3.is_app(p) and p.decl().name() == "qenc" and set("%&=+") <= set(safe): out.append(p)
        elif z3.is_app(p) and p.decl().name() in ("b64u",): out.append(p)
        else:
            t = qp(p, sval(safe))
            E.fact((t == z3.StringVal("")) == (p == z3.StringVal("")))
            if URL_PUNCT <= set(safe): E.fact(z3.Implies(url_clean(p), t == p))
            out.append(t)
    return E.mks(cat(*out))
MODELS[up.quote] = lambda E, a, k: _unsup("quote")
CONTAINS_FACTS["qp"] = lambda E, s, lit: False if any(c in " \r\n\t\0\"<>\\^`{|}" or ord(c) > 126 for c in lit) and not any(c in z3str(s.arg(1)) for c in lit) else None

def _unsup(m): raise Unsupported(m)

# ------------------------------------------------------------------ time
def tick(E):
    if E.ghost.get("frozen") is not None: return E.ghost["frozen"]      # a proof that compares two calls at one instant
    t = E.fresh("now", R)
    lo = E.clock if E.clock is not None else E.ghost.get("t0", z3.RealVal(0))
    E.fact(z3.And(t >= lo, t >= 0))
    E.clock = t
    E.ghost.setdefault("reads", []).append(t)
    return t

def tzoff(E):
    return z3.Real("tz_offset")

def mk_dt(t, aware):
    """aware: 'utc' (POSIX instant t) or None (naive; t = what it shows, as seconds)"""
    return IObj("datetime", t=t, aware=aware, isinstance=lambda c: issubclass(dtm.datetime, c))

def _now(E, a, k):
    tz = a[0] if a else k.get("tz")
    t = tick(E)
    if tz is None: return mk_dt(t + tzoff(E), None)
    if isinstance(tz, dtm.tzinfo): return mk_dt(t, "utc")
    raise Unsupported("datetime.now(tz)")

def dt_class_attr(name):
    return {"now": _now, "utcnow": lambda E, a, k: mk_dt(tick(E), None), "today": lambda E, a, k: mk_dt(tick(E) + tzoff(E), None),
            "fromtimestamp": lambda E, a, k: mk_dt(z3num(E, a[0]), "utc") if len(a) > 1 or "tz" in k else mk_dt(z3num(E, a[0]) + tzoff(E), None),
            "utcfromtimestamp": lambda E, a, k: mk_dt(z3num(E, a[0]), None)}.get(name)

def z3num(E, v):
    n = E.as_num(v)
    return z3.ToReal(n) if n.sort() == I else n

MODELS[dtm.datetime.now] = _now
MODELS[dtm.datetime.utcnow] = dt_class_attr("utcnow")
MODELS[dtm.datetime.fromtimestamp] = dt_class_attr("fromtimestamp")
MODELS[dtm.datetime.utcfromtimestamp] = dt_class_attr("utcfromtimestamp")
MODELS[time.time] = lambda E, a, k: E.wrap(Val.vflt(tick(E)))
MODELS[time.time_ns] = lambda E, a, k: E.mki(z3.ToInt(tick(E) * 1000000000))
MODELS[__import__("calendar").timegm] = lambda E, a, k: E.mki(z3.ToInt(a[0].ghost["t"])) if isinstance(a[0], IObj) and a[0].kind == "timetuple" else _unsup("timegm")
MODELS[time.mktime] = lambda E, a, k: E.wrap(Val.vflt(z3.ToReal(z3.ToInt(a[0].ghost["t"] - tzoff(E))))) if isinstance(a[0], IObj) and a[0].kind == "timetuple" else _unsup("mktime")
MODELS[dtm.timedelta] = lambda E, a, k: dtm.timedelta(*a, **k) if all(conc(x) for x in list(a) + list(k.values())) else IObj("timedelta", s=sum_td(E, a, k))

def sum_td(E, a, k):
    f = dict(days=86400, seconds=1, minutes=60, hours=3600, weeks=604800)
    names = ["days", "seconds"]
    tot = z3.RealVal(0)
    for n, v in list(zip(names, a)) + list(k.items()):
        tot = tot + z3num(E, v) * f[n]
    return tot

def dt_compare(E, op, a, b):
    if not (isinstance(a, IObj) and isinstance(b, IObj) and a.kind == b.kind == "datetime"):
        if isinstance(op, (ast.Eq,)): return a is b
        E.raise_(TypeError)
    if isinstance(op, ast.Eq):
        if (a.ghost["aware"] is None) != (b.ghost["aware"] is None): return False
    elif (a.ghost["aware"] is None) != (b.ghost["aware"] is None): E.raise_(TypeError)
    x, y = a.ghost["t"], b.ghost["t"]
    return {ast.Eq: lambda: x == y, ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()

def iobj_binop(E, op, a, b):
    if isinstance(a, IObj) and a.kind == "datetime":
        s = None
        if isinstance(b, dtm.timedelta): s = z3.RealVal(repr(b.total_seconds()))
        elif isinstance(b, IObj) and b.kind == "timedelta": s = b.ghost["s"]
        if s is not None:
            return mk_dt(a.ghost["t"] + s if isinstance(op, ast.Add) else a.ghost["t"] - s, a.ghost["aware"])
        if isinstance(op, ast.Sub) and isinstance(b, IObj) and b.kind == "datetime": return IObj("timedelta", s=a.ghost["t"] - b.ghost["t"])
        if isinstance(op, ast.Sub) and isinstance(b, dtm.datetime): return IObj("timedelta", s=a.ghost["t"] - z3.RealVal(repr((b.replace(tzinfo=None) - dtm.datetime(1970, 1, 1)).total_seconds())))
    E.raise_(TypeError)

# ------------------------------------------------------------------ files, warnings
MODELS[warnings.warn] = lambda E, a, k: None

f_exists = uf("f_exists", Val, B)
f_content = uf("f_content", Val, S)
f_fault = uf("f_fault", Val, I)
OPEN_FAULTS = [FileNotFoundError, IsADirectoryError, NotADirectoryError, "nul", "long", PermissionError, "other"]

@model(open)
def _(E, a, k):
    p = a[0]
    mode = a[1] if len(a) > 1 else k.get("mode", "r")
    if "b" not in mode or "r" not in mode: raise Unsupported("open mode")
    if isinstance(p, (str, bytes)) or isinstance(p, Sym) and E.need(p, ("str", "bytes")): pass
    else: E.raise_(TypeError)
    t = E.term(p)
    c = f_fault(t)
    if E.branch(f_exists(t)):
        return IObj("file", path=t, content=f_content(t))
    E.fact(z3.And(c >= 0, c < len(OPEN_FAULTS)))
    for i, x in enumerate(OPEN_FAULTS):
        if i == len(OPEN_FAULTS) - 1 or E.branch(c == i):
            if i == len(OPEN_FAULTS) - 1: E.assume(c == i)
            if x == "nul": E.raise_(ValueError)
            o = HObj(x if isinstance(x, type) else OSError)
            o.attrs["errno"] = {FileNotFoundError: errno.ENOENT, IsADirectoryError: errno.EISDIR, NotADirectoryError: errno.ENOTDIR, PermissionError: errno.EACCES, "long": errno.ENAMETOOLONG}.get(x, errno.EIO)
            o.attrs["args"] = ()
            raise PyRaise(o)

for _nm in ("exists", "isfile", "isdir"):
    MODELS[getattr(os.path, _nm)] = (lambda n: lambda E, a, k: _unsup(f"os.path.{n}"))(_nm)

def context_manager(E, cm):
    if isinstance(cm, IObj) and cm.kind == "file":
        return (lambda: cm), (lambda exc: False)
    if isinstance(cm, IObj) and cm.kind == "suppress":
        return (lambda: None), (lambda exc: exc is not None and issubclass(E.exc_class(exc), cm.ghost["excs"]))
    raise Unsupported("context manager")

MODELS[__import__("contextlib").suppress] = lambda E, a, k: IObj("suppress", excs=tuple(a))

# ------------------------------------------------------------------ cryptography: hashes, HMAC
MODELS[backends.default_backend] = lambda E, a, k: IObj("backend")
hm_tag = uf("hmac_tag", S, S, S, S)       # hash name, key, data

@model(chmac.HMAC)
def _(E, a, k):
    E.need(a[0], ("bytes",))
    h = a[1]
    if isinstance(h, Sym) or isinstance(h, IObj): raise Unsupported("symbolic hash")
    if not isinstance(h, hashes.HashAlgorithm): E.raise_(TypeError)
    return IObj("hmac", key=E.str_t(a[0]), hash=h.name, data=z3.StringVal(""))

def hmac_t(o):
    return hm_tag(sval(o.ghost["hash"]), o.ghost["key"], o.ghost["data"])

# ------------------------------------------------------------------ cryptography: RSA
rsa_pub_ok = uf("rsa_pub_ok", I, I, B)                    # n, e
rsa_priv_ok = uf("rsa_priv_ok", I, I, I, I, I, I, I, I, B)   # n e d p q dp dq qi
rsa_fits = uf("rsa_fits", S, S, I, B)          # padding, hash, n: the modulus is large enough
rsa_valid = uf("rsa_valid", S, S, I, I, S, S, B)          # padding, hash, n, e, data, sig
ec_valid = uf("ec_valid", S, S, I, I, S, S, B)            # hash, curve, x, y, data, sig
ec_pub_ok = uf("ec_pub_ok", S, I, I, B)
ec_priv_ok = uf("ec_priv_ok", S, I, I, I, B)

def ints(E, *vs):
    out = []
    for v in vs:
        if v is None: E.raise_(TypeError)
        if isinstance(v, Sym) and E.kind(v) is None and E.branch(Val.is_none(v.t)): E.raise_(TypeError)
        out.append(E.as_int(v))
    return out

@model(rsa.RSAPublicNumbers)
def _(E, a, k):
    e, n = ints(E, *(a if len(a) == 2 else [a[0] if a else k.get("e"), k.get("n")]))
    return IObj("rsapubnum", e=e, n=n, attrs=dict(e=E.mki(e), n=E.mki(n)))

@model(rsa.RSAPrivateNumbers)
def _(E, a, k):
    names = ["p", "q", "d", "dmp1", "dmq1", "iqmp", "public_numbers"]
    v = dict(zip(names, a)); v.update(k)
    g = dict(zip(names[:6], ints(E, *[v[x] for x in names[:6]])))
    pn = v["public_numbers"]
    if not (isinstance(pn, IObj) and pn.kind == "rsapubnum"): E.raise_(TypeError)
    return IObj("rsaprivnum", pub=pn, attrs={**{x: E.mki(t) for x, t in g.items()}, "public_numbers": pn}, **g)

rec_ok, rec_p, rec_q = uf("rsa_rec_ok", I, I, I, B), uf("rsa_rec_p", I, I, I, I), uf("rsa_rec_q", I, I, I, I)
crt_p, crt_q, crt_i = uf("rsa_dmp1", I, I, I), uf("rsa_dmq1", I, I, I), uf("rsa_iqmp", I, I, I)
@model(rsa.rsa_recover_prime_factors)
def _(E, a, k):
    n, e, d = ints(E, *a)
    if not E.branch(rec_ok(n, e, d)): E.raise_(ValueError)
    return (E.mki(rec_p(n, e, d)), E.mki(rec_q(n, e, d)))
def _crt(f):
    def g(E, a, k):
        d, p = ints(E, *a)
        if E.branch(p == 1): E.raise_(ZeroDivisionError)
        return E.mki(f(d, p))
    return g
MODELS[rsa.rsa_crt_dmp1] = _crt(crt_p)
MODELS[rsa.rsa_crt_dmq1] = _crt(crt_q)
MODELS[rsa.rsa_crt_iqmp] = lambda E, a, k: (lambda p, q: E.mki(crt_i(p, q)))(*ints(E, *a))

def rsa_priv_facts(E, g, n, e):
    ok = rsa_priv_ok(n, e, g["d"], g["p"], g["q"], g["dmp1"], g["dmq1"], g["iqmp"])
    E.fact(z3.Implies(ok, z3.And(rsa_pub_ok(n, e), *[g[x] > 0 for x in ("d", "p", "q", "dmp1", "dmq1", "iqmp")])))
    E.fact(z3.Implies(rsa_pub_ok(n, e), z3.And(n > 0, e > 0)))
    return ok

@model(rsa.generate_private_key)
def _(E, a, k):
    e = a[0] if a else k["public_exponent"]
    size = a[1] if len(a) > 1 else k["key_size"]
    if E.branch(E.as_int(size) < 512): E.raise_(ValueError)
    if not isinstance(e, int) or e not in (3, 65537): E.raise_(ValueError)
    g = {x: E.fresh(x, I) for x in ("p", "q", "d", "dmp1", "dmq1", "iqmp")}
    n = E.fresh("n", I)
    E.fact(rsa_priv_facts(E, g, n, z3.IntVal(e)))
    E.fact(bitlen(n) == E.as_int(size))
    pn = IObj("rsapubnum", e=z3.IntVal(e), n=n, attrs=dict(e=e, n=E.mki(n)))
    num = IObj("rsaprivnum", pub=pn, attrs={**{x: E.mki(t) for x, t in g.items()}, "public_numbers": pn}, **g)
    return rsa_private(num)

def rsa_private(num): return IObj("rsapriv", num=num, pub=num.ghost["pub"], isinstance=lambda c: issubclass(rsa.RSAPrivateKeyWithSerialization, c))
def rsa_public(pn): return IObj("rsapub", pub=pn, isinstance=lambda c: issubclass(rsa.RSAPublicKeyWithSerialization, c))

def pad_name(E, p, alg):
    n = pad_name_(p)
    E.ghost.setdefault("pads", set()).add(n)
    return n
def pad_name_(p):
    if isinstance(p, padding.PKCS1v15): return "PKCS1v15"
    if isinstance(p, padding.PSS):
        m = p._mgf
        return f"PSS/{type(m).__name__}({m._algorithm.name})/{'MAX' if p._salt_length is padding.PSS.MAX_LENGTH else p._salt_length}"
    raise Unsupported("RSA padding")

def hash_name(E, h):
    if isinstance(h, hashes.HashAlgorithm): return h.name
    raise Unsupported("hash object")

# ------------------------------------------------------------------ cryptography: EC
@model(ec.EllipticCurvePublicNumbers)
def _(E, a, k):
    x, y = ints(E, a[0], a[1])
    c = a[2]
    if not isinstance(c, ec.EllipticCurve): E.raise_(TypeError)
    return IObj("ecpubnum", x=x, y=y, curve=c, attrs=dict(x=E.mki(x), y=E.mki(y), curve=c))

@model(ec.EllipticCurvePrivateNumbers)
def _(E, a, k):
    (d,) = ints(E, a[0])
    return IObj("ecprivnum", d=d, pub=a[1], attrs=dict(private_value=E.mki(d), public_numbers=a[1]))

@model(ec.generate_private_key)
def _(E, a, k):
    c = a[0]
    if not isinstance(c, ec.EllipticCurve): raise Unsupported("curve")
    d, x, y = (E.fresh(n, I) for n in ("d", "x", "y"))
    ok = ec_ok(E, c, x, y, d)
    E.fact(ok)
    pn = IObj("ecpubnum", x=x, y=y, curve=c, attrs=dict(x=E.mki(x), y=E.mki(y), curve=c))
    return ec_private(IObj("ecprivnum", d=d, pub=pn, attrs=dict(private_value=E.mki(d), public_numbers=pn)))

def ec_ok(E, c, x, y, d=None):
    nm = sval(c.name)
    pub = ec_pub_ok(nm, x, y)
    E.fact(z3.Implies(pub, z3.And(x >= 0, y >= 0)))
    if d is None: return pub
    ok = ec_priv_ok(nm, x, y, d)
    E.fact(z3.Implies(ok, z3.And(pub, d > 0)))
    return ok

def ec_private(num): return IObj("ecpriv", num=num, pub=num.ghost["pub"], isinstance=lambda c: issubclass(ec.EllipticCurvePrivateKeyWithSerialization, c))
def ec_public(pn): return IObj("ecpub", pub=pn, isinstance=lambda c: issubclass(ec.EllipticCurvePublicKeyWithSerialization, c))

# ------------------------------------------------------------------ PEM
pem_rsa_priv = uf("pem_rsa_priv", I, I, I, I, I, I, I, I, S)
pem_rsa_pub = uf("pem_rsa_pub", I, I, S)
pem_ec_priv = uf("pem_ec_priv", S, I, I, I, S)
pem_ec_pub = uf("pem_ec_pub", S, I, I, S)
pem_kind = uf("pem_kind", S, I)     # of private PEM text: 0 RSA, 1 EC, 2 other, 3 not loadable
def _pemc(priv):
    def f(E, s, lit):
        if lit == "PRIVATE": return priv
        if lit == "PUBLIC": return not priv
        return None
    return f
for _n in ("pem_rsa_priv", "pem_ec_priv"): CONTAINS_FACTS[_n] = _pemc(True)
for _n in ("pem_rsa_pub", "pem_ec_pub"): CONTAINS_FACTS[_n] = _pemc(False)

def load_pem(E, t, priv):
    t = z3.simplify(t)
    nm = t.decl().name() if z3.is_app(t) else ""
    I0 = lambda name: uf(name, S, I)(t)
    if priv:
        if nm == "pem_rsa_priv": vals = [t.arg(i) for i in range(8)]; fam = 0
        elif nm == "pem_ec_priv": fam = 1; cn, x, y, d = [t.arg(i) for i in range(4)]
        else:
            k = pem_kind(t)
            E.fact(z3.And(k >= 0, k <= 3))
            fam = next((i for i in range(3) if E.branch(k == i)), 3)
            vals = [I0("pemr_" + x) for x in ("n", "e", "d", "p", "q", "dp", "dq", "qi")]
        if fam == 0:
            n, e, d, p, q, dp, dq, qi = vals
            g = dict(p=p, q=q, d=d, dmp1=dp, dmq1=dq, iqmp=qi)
            E.fact(rsa_priv_facts(E, g, n, e))
            pn = IObj("rsapubnum", e=e, n=n, attrs=dict(e=E.mki(e), n=E.mki(n)))
            return rsa_private(IObj("rsaprivnum", pub=pn, attrs={**{x: E.mki(v) for x, v in g.items()}, "public_numbers": pn}, **g))
        if fam == 1:
            if nm == "pem_ec_priv":
                c = CURVE_BY_NAME[z3str(cn)]
            else:
                c = pick_curve(E, t)
                x, y, d = I0("peme_x"), I0("peme_y"), I0("peme_d")
            E.fact(ec_ok(E, c, x, y, d))
            pn = IObj("ecpubnum", x=x, y=y, curve=c, attrs=dict(x=E.mki(x), y=E.mki(y), curve=c))
            return ec_private(IObj("ecprivnum", d=d, pub=pn, attrs=dict(private_value=E.mki(d), public_numbers=pn)))
        if fam == 2: return IObj("otherkey", isinstance=lambda c: c is object)
        E.raise_(ValueError)
    if nm == "pem_rsa_pub": fam, n, e = 0, t.arg(0), t.arg(1)
    elif nm == "pem_ec_pub": fam = 1; cn, x, y = [t.arg(i) for i in range(3)]
    else:
        k = pem_kind(t)
        E.fact(z3.And(k >= 0, k <= 3))
        fam = next((i for i in range(3) if E.branch(k == i)), 3)
        n, e = I0("pemr_n"), I0("pemr_e")
    if fam == 0:
        E.fact(z3.And(rsa_pub_ok(n, e), n > 0, e > 0))
        return rsa_public(IObj("rsapubnum", e=e, n=n, attrs=dict(e=E.mki(e), n=E.mki(n))))
    if fam == 1:
        if nm == "pem_ec_pub": c = CURVE_BY_NAME[z3str(cn)]
        else:
            c = pick_curve(E, t)
            x, y = I0("peme_x"), I0("peme_y")
        E.fact(ec_ok(E, c, x, y))
        return ec_public(IObj("ecpubnum", x=x, y=y, curve=c, attrs=dict(x=E.mki(x), y=E.mki(y), curve=c)))
    if fam == 2: return IObj("otherkey", isinstance=lambda c: c is object)
    E.raise_(ValueError)

CURVE_BY_NAME = {c.name: c() for c in (ec.SECP256R1, ec.SECP384R1, ec.SECP521R1, ec.SECP256K1)}
def pick_curve(E, t):
    k = uf("pem_curve", S, I)(t)
    E.fact(z3.And(k >= 0, k <= 3))
    cs = list(CURVE_BY_NAME.values())
    for i in range(3):
        if E.branch(k == i): return cs[i]
    return cs[3]

MODELS[ser.load_pem_private_key] = lambda E, a, k: (E.need(a[0], ("bytes",)), load_pem(E, E.str_t(a[0]), True))[1]
MODELS[ser.load_pem_public_key] = lambda E, a, k: (E.need(a[0], ("bytes",)), load_pem(E, E.str_t(a[0]), False))[1]

# ------------------------------------------------------------------ attributes of interface objects
def iface_isinstance(E, x, c):
    k = x.ghost.get("class")
    if isinstance(k, type): return issubclass(k, c)
    if c is object: return True
    return False

def iface_attr(E, o, name):
    st = o.ghost.get("set")
    if st and name in st: return st[name]
    at = o.ghost.get("attrs")
    if at and name in at: return at[name]
    f = IFACE.get((o.kind, name))
    if f is not None: return Model(f"{o.kind}.{name}", lambda E, a, k: f(E, o, a, k))
    h = IFACE.get((o.kind, "*"))
    if h is not None:
        r = h(E, o, name)
        if r is not MISSING: return r
    if name == "__class__": return TypeOf(o)
    E.raise_(AttributeError, name)

def iface_call(E, f, name, args, kw):
    h = IFACE.get((f.kind, "__call__"))
    if h is None: raise Unsupported(f"call of {f!r}")
    return h(E, f, args, kw)

IFACE = {}
def iface(kind, name):
    def deco(g):
        IFACE[(kind, name)] = g
        return g
    return deco

def gset(E, o, key, v):
    old = o.ghost.get(key)
    def undo(): o.ghost[key] = old
    E.journal.append(("fn", undo, "attr", o, key, v))
    o.ghost[key] = v

@iface("hash", "digest")
def _(E, o, a, k):
    t = sha(o.ghost["name"])(o.ghost["data"])
    E.fact(z3.Length(t) == HLEN[o.ghost["name"]])
    return E.mky(t)
@iface("hash", "hexdigest")
def _(E, o, a, k): return E.mks(hexs(sha(o.ghost["name"])(o.ghost["data"])))
@iface("hash", "update")
def _(E, o, a, k):
    E.need(a[0], ("bytes",)); gset(E, o, "data", cat(o.ghost["data"], E.str_t(a[0])))
@iface("hash", "*")
def _(E, o, name):
    if name == "digest_size": return HLEN[o.ghost["name"]]
    if name == "name": return o.ghost["name"]
    return MISSING
@iface("hmac", "update")
def _(E, o, a, k):
    E.need(a[0], ("bytes",)); gset(E, o, "data", cat(o.ghost["data"], E.str_t(a[0])))
@iface("hmac", "finalize")
def _(E, o, a, k): return E.mky(hmac_t(o))
IFACE[("hmac", "digest")] = IFACE[("hmac", "finalize")]
@iface("hmac", "verify")
def _(E, o, a, k):
    E.need(a[0], ("bytes",))
    if not E.branch(E.str_t(a[0]) == hmac_t(o)): E.raise_(cx.InvalidSignature)
    return None
@iface("file", "read")
def _(E, o, a, k): return E.mky(o.ghost["content"])
@iface("file", "close")
def _(E, o, a, k): return None
@iface("datetime", "timestamp")
def _(E, o, a, k):
    t = o.ghost["t"] if o.ghost["aware"] else o.ghost["t"] - tzoff(E)
    return E.wrap(Val.vflt(t))
@iface("datetime", "replace")
def _(E, o, a, k):
    if set(k) <= {"tzinfo", "microsecond"} and not a:
        t = o.ghost["t"]
        aw = o.ghost["aware"]
        if "microsecond" in k:
            if k["microsecond"] != 0: raise Unsupported("replace microsecond")
            t = z3.ToReal(z3.ToInt(t))
        if "tzinfo" in k: aw = None if k["tzinfo"] is None else "utc"
        return mk_dt(t, aw)
    raise Unsupported("datetime.replace")
@iface("datetime", "astimezone")
def _(E, o, a, k): return mk_dt(o.ghost["t"] if o.ghost["aware"] else o.ghost["t"] - tzoff(E), "utc")
@iface("datetime", "utctimetuple")
def _(E, o, a, k): return IObj("timetuple", t=o.ghost["t"])
@iface("datetime", "timetuple")
def _(E, o, a, k): return IObj("timetuple", t=o.ghost["t"])
@iface("datetime", "*")
def _(E, o, name):
    if name == "tzinfo": return dtm.timezone.utc if o.ghost["aware"] else None
    return MISSING
@iface("timedelta", "total_seconds")
def _(E, o, a, k): return E.wrap(Val.vflt(o.ghost["s"]))

def bytes_arg(E, v):
    E.need(v, ("bytes",))
    return E.str_t(v)

@iface("rsapubnum", "public_key")
def _(E, o, a, k):
    n, e = o.ghost["n"], o.ghost["e"]
    E.fact(z3.Implies(rsa_pub_ok(n, e), z3.And(n > 0, e > 0)))
    if not E.branch(rsa_pub_ok(n, e)): E.raise_(ValueError)
    return rsa_public(o)
@iface("rsaprivnum", "private_key")
def _(E, o, a, k):
    pn = o.ghost["pub"]
    if not E.branch(rsa_priv_facts(E, o.ghost, pn.ghost["n"], pn.ghost["e"])): E.raise_(ValueError)
    return rsa_private(o)
@iface("rsapub", "public_numbers")
def _(E, o, a, k): return o.ghost["pub"]
@iface("rsapriv", "private_numbers")
def _(E, o, a, k): return o.ghost["num"]
@iface("rsapriv", "public_key")
def _(E, o, a, k): return rsa_public(o.ghost["pub"])
@iface("rsapub", "verify")
def _(E, o, a, k):
    sig, data = bytes_arg(E, a[0]), bytes_arg(E, a[1])
    pn = o.ghost["pub"].ghost
    if not E.branch(rsa_valid(sval(pad_name(E, a[2], a[3])), sval(hash_name(E, a[3])), pn["n"], pn["e"], data, sig)): E.raise_(cx.InvalidSignature)
    return None
@iface("rsapriv", "sign")
def _(E, o, a, k):
    data = bytes_arg(E, a[0])
    pn = o.ghost["pub"].ghost
    s = E.fresh("rsasig", S)
    if not E.branch(rsa_fits(sval(pad_name(E, a[1], a[2])), sval(hash_name(E, a[2])), pn["n"])): E.raise_(ValueError)
    E.fact(rsa_valid(sval(pad_name(E, a[1], a[2])), sval(hash_name(E, a[2])), pn["n"], pn["e"], data, s))
    E.assumed("a signature made with a private key verifies under the matching public key with the same hash and padding")
    return E.mky(s)
def _fmt(a, k, priv):
    enc = a[0] if a else k.get("encoding"); f = a[1] if len(a) > 1 else k.get("format")
    return enc, f
@iface("rsapriv", "private_bytes")
def _(E, o, a, k):
    enc, f = _fmt(a, k, True)
    if enc is not ser.Encoding.PEM or f not in (ser.PrivateFormat.TraditionalOpenSSL, ser.PrivateFormat.PKCS8): raise Unsupported("key encoding")
    g, pn = o.ghost["num"].ghost, o.ghost["pub"].ghost
    return E.mky(pem_rsa_priv(pn["n"], pn["e"], g["d"], g["p"], g["q"], g["dmp1"], g["dmq1"], g["iqmp"]))
@iface("rsapub", "public_bytes")
def _(E, o, a, k):
    enc, f = _fmt(a, k, False)
    if enc is not ser.Encoding.PEM or f not in (ser.PublicFormat.SubjectPublicKeyInfo, ser.PublicFormat.PKCS1): raise Unsupported("key encoding")
    pn = o.ghost["pub"].ghost
    return E.mky(pem_rsa_pub(pn["n"], pn["e"]))
@iface("rsapriv", "*")
def _(E, o, name):
    if name == "key_size": return E.mki(bitlen(o.ghost["pub"].ghost["n"]))
    return MISSING
IFACE[("rsapub", "*")] = IFACE[("rsapriv", "*")]

@iface("ecpubnum", "public_key")
def _(E, o, a, k):
    if not E.branch(ec_ok(E, o.ghost["curve"], o.ghost["x"], o.ghost["y"])): E.raise_(ValueError)
    return ec_public(o)
@iface("ecprivnum", "private_key")
def _(E, o, a, k):
    pn = o.ghost["pub"].ghost
    if not E.branch(ec_ok(E, pn["curve"], pn["x"], pn["y"], o.ghost["d"])): E.raise_(ValueError)
    return ec_private(o)
@iface("ecpub", "public_numbers")
def _(E, o, a, k): return o.ghost["pub"]
@iface("ecpriv", "private_numbers")
def _(E, o, a, k): return o.ghost["num"]
@iface("ecpriv", "public_key")
def _(E, o, a, k): return ec_public(o.ghost["pub"])
@iface("ecpub", "*")
def _(E, o, name):
    if name == "curve": return o.ghost["pub"].ghost["curve"]
    return MISSING
IFACE[("ecpriv", "*")] = IFACE[("ecpub", "*")]
def ecdsa_hash(E, x):
    if isinstance(x, ec.ECDSA): return x.algorithm.name
    raise Unsupported("EC signature algorithm")
@iface("ecpub", "verify")
def _(E, o, a, k):
    sig, data = bytes_arg(E, a[0]), bytes_arg(E, a[1])
    pn = o.ghost["pub"].ghost
    if not E.branch(ec_valid(sval(ecdsa_hash(E, a[2])), sval(pn["curve"].name), pn["x"], pn["y"], data, sig)): E.raise_(cx.InvalidSignature)
    return None
@iface("ecpriv", "sign")
def _(E, o, a, k):
    data = bytes_arg(E, a[0])
    pn = o.ghost["pub"].ghost
    s = E.fresh("ecsig", S)
    E.fact(ec_valid(sval(ecdsa_hash(E, a[1])), sval(pn["curve"].name), pn["x"], pn["y"], data, s))
    E.assumed("a signature made with a private key verifies under the matching public key with the same hash and padding")
    return E.mky(s)
@iface("ecpriv", "private_bytes")
def _(E, o, a, k):
    enc, f = _fmt(a, k, True)
    if enc is not ser.Encoding.PEM or f not in (ser.PrivateFormat.TraditionalOpenSSL, ser.PrivateFormat.PKCS8): raise Unsupported("key encoding")
    pn = o.ghost["pub"].ghost
    return E.mky(pem_ec_priv(sval(pn["curve"].name), pn["x"], pn["y"], o.ghost["num"].ghost["d"]))
@iface("ecpub", "public_bytes")
def _(E, o, a, k):
    enc, f = _fmt(a, k, False)
    if enc is not ser.Encoding.PEM or f is not ser.PublicFormat.SubjectPublicKeyInfo: raise Unsupported("key encoding")
    pn = o.ghost["pub"].ghost
    return E.mky(pem_ec_pub(sval(pn["curve"].name), pn["x"], pn["y"]))

def getattr_sym(E, a):
    o, nm = a[0], a[1]
    if o is hashlib:
        t = z3.simplify(E.str_t(nm))
        for n in HLEN:
            if E.branch(t == sval(n)): return getattr(hashlib, n)
        E.raise_(AttributeError)
    raise Unsupported("getattr with a symbolic name")
