"""Contracts on the helper functions of psion: what callers may rely on. Each is checked against the real body on every
run; a contract that no longer holds is dropped and its function is inlined at the call sites instead."""
import base64, re
from .verify import *
from .libmodels import *
from .models import *
import psion.webtools as W

_T = None
_ALL = None

def find(mod, *names):
    o = mod
    for n in names:
        o = getattr(o, n, None)
        if o is None: return None
    return o


def to_bytes_t(E, v):
    """Spec of to_bytes on text, bytes and None (UTF-8)."""
    k = E.kind(v)
    if k in ("bytes", "none"): return v
    if k == "str": return str_encode(E, v)
    return None


def _first(args, kw, name):
    return args[0] if args else kw.get(name)


# ---- to_bytes / to_string
def s_to_bytes(E, a, k):
    v = a[0]
    kd = E.kind(v)
    if kd in ("bytes", "none"): return v
    return str_encode(E, v, a[1] if len(a) > 1 else k.get("encoding", "utf-8"))
def p_known(kinds, n=2):
    def pre(E, a, k):
        return not isinstance(k, SymKw) and 1 <= len(a) <= n and isinstance(a[0], (Sym, str, bytes, type(None))) and E.kind(a[0]) in kinds
    return pre
def a_kinds(*kinds, kws=({},)):
    def args(E):
        i = E.choose(len(kinds))
        j = E.choose(len(kws))
        v = {"str": lambda: E.str_arg("data"), "bytes": lambda: E.bytes_arg("data"), "none": lambda: None, "any": lambda: E.arg("data")}[kinds[i]]()
        return [v], dict(kws[j])
    return args

def s_to_string(E, a, k):
    v = a[0]
    kd = E.kind(v)
    if kd in ("str", "none"): return v
    if isinstance(v, bytes): v = Sym(E.term(v))
    t = E.str_t(v)
    ok = valid_utf8(E, t)
    if ok is True or E.branch(ok): return E.mks(decode_t(E, t))
    return E.mks(b64u_of(E, t))

# ---- base64url
def s_b64e(E, a, k):
    v = to_bytes_t(E, a[0])
    if v is None: E.raise_(TypeError)
    if isinstance(v, bytes): return base64.urlsafe_b64encode(v).rstrip(b"=")
    return E.mky(b64u_of(E, E.str_t(v)))
def s_b64d(E, a, k):
    v = a[0]
    if isinstance(v, bytes): v = Sym(Val.vbytes(bval(v)))
    core = z3.simplify(E.str_t(v))
    if z3.is_string_value(core):
        x = z3str(core).encode("latin-1")
        try: return base64.urlsafe_b64decode(x + b"=" * (len(x) % 4))
        except Exception as e: E.raise_(binascii.Error)
    n = str_len(E, core) % 4
    E.fact(z3.Implies(core == z3.StringVal(""), z3.And(ub_ok(core, n), ub_dec(core) == z3.StringVal(""))))
    if z3.is_app(core) and core.decl().name() == "b64u":
        b64u_of(E, core.arg(0))
        return E.mky(core.arg(0))
    if not E.branch(ub_ok(core, n)): E.raise_(binascii.Error)
    return E.mky(ub_dec(core))

# ---- integers
def nbytes(n): return z3.If(bitlen(n) <= 8, z3.IntVal(1), (bitlen(n) + 7) / 8)
def s_i2b(E, a, k):
    n = a[0]
    if isinstance(n, bool): n = int(n)
    if isinstance(n, int):
        if n < 0: E.raise_(ValueError)
        return W_b64(n.to_bytes(max((n.bit_length() + 7) // 8, 1), "big"))
    t = E.as_int(n)
    if E.branch(t < 0): E.raise_(ValueError)
    E.fact(z3.And(bitlen(t) >= 0))
    return E.mky(b64u_of(E, be_of(E, t, nbytes(t))))
def W_b64(b): return base64.urlsafe_b64encode(b).rstrip(b"=")
def p_int(E, a, k): return len(a) == 1 and not k and E.kind(a[0]) == "int"

# the integer written in a value of a key parameter, for a value of any type
def ki_raw(v): return z3.If(Val.is_vstr(v), Val.s(v), Val.y(v))
ki_okf = uf("ki_ok", Val, B)
ki_valf = uf("ki_val", Val, I)
def ki_int(v):
    """The integer of a value that is, as a term, the library's own encoding of one (C13)."""
    r = z3.simplify(ki_raw(v))
    if z3.is_app(r) and r.decl().name() == "b64u" and z3.is_app(r.arg(0)) and r.arg(0).decl().name() == "be" and positive(r.arg(0).arg(1)): return r.arg(0).arg(0)
    if z3.is_string_value(r) and kind_of_term(v) in ("str", "bytes"):
        s = z3str(r)
        if s and re.fullmatch("[A-Za-z0-9_-]+", s) and len(s) % 4 != 1: return z3.IntVal(int.from_bytes(base64.urlsafe_b64decode(s + "=" * (-len(s) % 4)), "big"))
def positive(k, _memo={}):
    if k.get_id() not in _memo:
        s = z3.Solver(); s.set("timeout", 2000)
        s.add(k < 1)
        _memo[k.get_id()] = (k, s.check() == z3.unsat)
    return _memo[k.get_id()][1]
def ki_given(E, v):
    return z3.BoolVal(True) if ki_int(v) is not None else zb(E.truthy(Sym(v)))
def ki_ok(v): return ki_okf(v) if ki_int(v) is None else z3.BoolVal(True)
def ki_val(v):
    n = ki_int(v)
    return ki_valf(v) if n is None else n
def ki_facts(E, v, unfold=False):
    """ki_ok and ki_val are unfolded where the value is known or the decoder itself is checked; elsewhere they stay opaque."""
    if ki_int(v) is not None: return
    E.fact(z3.And(ki_val(v) >= 0, z3.Implies(ki_ok(v), z3.Or(Val.is_vbytes(v), Val.is_vstr(v)))))
    if not unfold and kind_of_term(v) is None and not E.disabled and not E.no_contracts: return
    r = z3.simplify(ki_raw(v))
    if z3.is_app(r) and r.decl().name() == "b64u": b64u_of(E, r.arg(0))
    x = ub_dec(r)
    if z3.is_app(r) and r.decl().name() == "b64u": x = r.arg(0)
    E.fact(ki_ok(v) == z3.And(z3.Or(Val.is_vbytes(v), z3.And(Val.is_vstr(v), is_ascii(r))), ub_ok(r, z3.Length(r) % 4), x != z3.StringVal("")))
    E.fact(ki_val(v) == be_int_of(E, x))
    E.fact(z3.Implies(r == z3.StringVal(""), x == z3.StringVal("")))
    E.fact(z3.Implies(is_ascii(r), utf8(r) == r))

def s_b2i(E, a, k):
    v = a[0]
    kd = E.kind(v)
    if kd is None:
        ki_facts(E, v.t, E.checking is not None)
        E.may_raise([TypeError, UnicodeEncodeError, binascii.Error, ValueError], Not(z3.Or(Val.is_none(v.t), ki_ok(v.t))))
        return Sym(z3.If(Val.is_none(v.t), Val.none, Val.vint(ki_val(v.t))))
    if kd == "none": return None
    if isinstance(v, (str, bytes)): v = Sym(E.term(v))
    t = E.str_t(v)
    if kd == "str" and not ascii_known(t):
        if not E.branch(is_ascii(t)): E.raise_(UnicodeEncodeError)
        E.fact(utf8(t) == t)
    x = s_b64d(E, [Sym(Val.vbytes(t))], {})
    if isinstance(x, bytes):
        if not x: E.raise_(ValueError)
        return int.from_bytes(x, "big")
    s = E.str_t(x)
    if E.branch(s == z3.StringVal("")): E.raise_(ValueError)
    return E.mki(be_int_of(E, s))

# ---- FullDict
def s_fulldict(E, a, k):
    d = HDict()
    if a and a[0] is not None:
        v = E.dict_of(a[0])
        d = HDict(v.base, v.layers)
    if isinstance(k, SymKw): dict_update(E, d, k.d)
    for n, v in (k.kw if isinstance(k, SymKw) else k).items(): E.d_write(d, n, v)
    o = HObj(W.FullDict)
    if E.checking is None and d.base is not None and d.layers and all(conc(x) for x, _ in d.layers):
        last = dict(d.layers)
        o.d = HDict(base=filt_arr(E, d.base), layers=[(x, MISSING if v is None or v is not MISSING and isinstance(v, Sym) and E.kind(v) is None and E.branch(Val.is_none(v.t)) else v) for x, v in last.items()])
        return o
    o.d = HDict(base=filt_arr(E, E.arr(d)))
    return o
def p_fulldict(E, a, k):
    if len(a) > 1: return False
    v = a[0] if a else None
    if v is not None and not (isinstance(v, (Sym, HDict)) or isinstance(v, HObj) and v.d is not None): return False
    if v is not None and E.kind(v) != "dict": return False
    return not ((v is None or E.dict_of(v).concrete_keys()) and (not isinstance(k, SymKw) or k.d.concrete_keys()))
def a_fulldict(n, kw):
    return lambda E: ([E.dict_arg("data")] if n else [], SymKw(E.dict_of(E.dict_arg("keywords")), {}) if kw else {})

# ---- JSON
def s_jloads(E, a, k):
    v = a[0]
    kd = E.kind(v)
    if isinstance(v, (str, bytes)): v = Sym(E.term(v))
    s = E.str_t(s_to_string(E, [v], {}))
    from .libmodels import MODELS as LM
    return LM[json.loads](E, [E.mks(s)], {})

def half_hash_names():
    return [p + n for p in ("HS", "RS", "ES", "PS") for n in ("256", "384", "512")]
def s_half(E, a, k):
    tok, alg = a
    t = encode_t(E, E.str_t(tok))
    h = sha("sha" + alg[2:])(t)
    n = HLEN["sha" + alg[2:]]
    E.fact(z3.Length(h) == n)
    return E.mks(b64u_of(E, z3.SubString(h, 0, n // 2)))
def p_half(E, a, k): return len(a) == 2 and not k and E.kind(a[0]) == "str" and isinstance(a[1], str) and a[1] in half_hash_names()
def a_half(E):
    names = half_hash_names()
    return [E.str_arg("access_token"), names[E.choose(len(names))]], {}


def build():
    out = []
    def add(name, path, spec, args, pre=None, **kw):
        t = find(W, *path.split(".")) if isinstance(path, str) else path
        if t is not None:
            out.append(Contract(name, t, spec, args, pre, **kw))
    add("psion.webtools.to_bytes", "to_bytes", s_to_bytes, a_kinds("str", "bytes", "none", kws=({}, {"encoding": "ascii"})), p_known(("str", "bytes", "none")))
    add("psion.webtools.to_string", "to_string", s_to_string, a_kinds("str", "bytes", "none"), p_known(("str", "bytes", "none"), 1))
    add("psion.webtools.base64url_encode", "base64url_encode", s_b64e, a_kinds("str", "bytes"), p_known(("str", "bytes"), 1))
    add("psion.webtools.base64url_decode", "base64url_decode", s_b64d, a_kinds("bytes"), p_known(("bytes",), 1), covers=("returns", "raises"))
    add("psion.webtools.int_to_b64", "int_to_b64", s_i2b, lambda E: ([E.int_arg("n")], {}), p_int, covers=("returns", "raises"))
    add("psion.webtools.b64_to_int", "b64_to_int", s_b2i, a_kinds("str", "bytes", "none", "any"), p_known(("str", "bytes", "none", None), 1), covers=("returns", "raises"))
    add("psion.webtools.FullDict", "FullDict", s_fulldict, None, p_fulldict, call=lambda E, a, k: E.construct(W.FullDict, a, k),
        shards=[("data", a_fulldict(1, 0), ("returns",)), ("data and keywords", a_fulldict(1, 1), ("returns",)), ("keywords", a_fulldict(0, 1), ("returns",))])
    add("psion.webtools.json_loads", "json_loads", s_jloads, a_kinds("str", "bytes"), p_known(("str", "bytes"), 1), covers=("returns", "raises"))
    add("psion.webtools.create_half_hash", "create_half_hash", s_half, a_half, p_half)
    return out

def all_contracts():
    global _ALL
    if _ALL is None:
        _ALL = build()
        from . import contracts_keys, contracts_jose
        _ALL += contracts_keys.build() + contracts_jose.build()
        from . import specs_jose
        _ALL += specs_jose.build()
        from . import contracts_keysets
        _ALL += contracts_keysets.build()
        from . import contracts_oauth
        _ALL += contracts_oauth.build()
    return _ALL

def table():
    return {c.target: c for c in all_contracts()}
