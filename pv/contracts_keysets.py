"""Key sets hold any number of keys, so the keys in them are opaque: building a key and dumping it are functions of the
description and of the key, which is what the contracts here state. The bodies are checked case by case by running them twice."""
from .verify import *
from .libmodels import *
from .models import *
from .specs import *
from .specs_jose import *
from .contracts_keys import same_oct, same_asym
from . import contracts as C
import psion.jose.jwk as JK
import psion.jose.exceptions as X
import psion.webtools as W

is_jwk = uf("is_jwk", I, B)                 # object is a key
key_arr = uf("key_arr", I, ArrS)            # its attributes
jwk_ok = uf("jwk_ok", Val, B)               # a key can be built from the value
jwk_of = uf("jwk_of", Val, I)               # ... and is this one
key_dump_f = uf("key_dump", I, B, Val)
key_dumps_f = uf("key_dumps", I, B, B)
def key_dump(o, p): return key_dump_f(o, z3.BoolVal(p) if isinstance(p, bool) else p)
def key_dumps(o, p): return key_dumps_f(o, z3.BoolVal(p) if isinstance(p, bool) else p)

class SymKey:
    cls = JK.JsonWebKey
    @staticmethod
    def pred(o): return is_jwk(o)
    @staticmethod
    def attr(E, o, name):
        oid = Val.oid(o.t)
        if name == "data":
            d = HObj(W.FullDict)
            d.d = HDict(base=key_arr(oid))
            return d
        if name == "__class__": return JK.JsonWebKey
        f = JK.JsonWebKey.__dict__.get(name)
        if isinstance(f, types.FunctionType): return BoundM(f, o, JK.JsonWebKey)
        raise Unsupported(f"attribute {name} of an arbitrary key")

def opaque_keys(E):
    E.symclasses = (SymKey,)
    E.ghost["opaque_keys"] = True
    o, k = z3.Int("ko"), z3.Const("kk", Val)
    E.fact(z3.ForAll([o, k], z3.Not(Val.is_none(z3.Select(key_arr(o), k))), patterns=[z3.Select(key_arr(o), k)]))
    E.fact(z3.ForAll([o], Val.is_absent(z3.Select(key_arr(o), Val.absent)), patterns=[key_arr(o)]))

def again(E, f):
    """The outcome of doing it once more."""
    g, E.checking = E.checking, None
    try: return f(E)
    except PyRaise:
        if g.ok: raise
        E.checking = g
        E.promise(z3.BoolVal(issubclass(g.cls, tuple(FAILS) + (ZeroDivisionError,))), "raises only what the contract says")
        raise PyRaise(g.exc)
    finally: E.checking = g

FAILS = [X.InvalidKey, X.UnsupportedAlgorithm, TypeError, ValueError, RuntimeError]

# ---- JsonWebKey(data)
def s_key(E, a, k):
    if E.checking is not None: return again(E, lambda E: plain(E, lambda: E.construct(JK.JsonWebKey, a, k)))
    t = E.term(a[0])
    if not E.branch(Val.is_vdict(t)): E.raise_(X.InvalidKey)
    E.may_raise(FAILS + [ZeroDivisionError], Not(jwk_ok(t)))
    o = jwk_of(t)
    E.fact(z3.And(is_jwk(o), Val.is_vdict(t), key_arr(o) == filt(d_arr(Val.did(t)))))
    return Sym(Val.vobj(o))

def plain(E, f):
    v, E.verifying = E.verifying, JK.JsonWebKey
    try: return f()
    finally: E.verifying = v

def p_key(E, a, k):
    return bool(E.ghost.get("opaque_keys")) and len(a) == 1 and not k and isinstance(a[0], Sym)

def same_alg(E, g, w):
    if not (isinstance(g, HObj) and isinstance(w, HObj) and g.cls is w.cls): return False
    if "_secret" in w.attrs: return same_oct(E, g, w)
    if w.cls.__name__ == "RSAKey": return same_asym("rsa", ("n", "e"), ("d", "p", "q", "dmp1", "dmq1", "iqmp"))(E, g, w)
    return same_asym("ec", ("x", "y"), ("d",))(E, g, w)

def same_key(E, g, w):
    if not (isinstance(g, HObj) and g.cls is w.cls): return False
    d = E.inputs["key"]
    want = HDict(base=filt_arr(E, E.arr(E.dict_of(d))))
    if set(g.attrs) != set(w.attrs) or not {"data", "_algorithm"} <= set(g.attrs): return False
    rest = [E.same(g.attrs[n], w.attrs[n]) for n in g.attrs if n not in ("data", "_algorithm")]
    return And(E.same_dict(g.attrs["data"], w.attrs["data"]), E.same_dict(g.attrs["data"], want), same_alg(E, g.attrs["_algorithm"], w.attrs["_algorithm"]), *rest)

def a_key(fam):
    def args(E):
        if fam is None:
            v = E.arg("key")
            E.assume(z3.Not(Val.is_vdict(v.t)))
            return [v], {}
        d = E.dict_arg("key")
        t = at(E, d, "kty")
        E.assume(t == E.term(fam) if fam else z3.And([t != E.term(f) for f in FAMS]))
        return [d], {}
    return args

# ---- JsonWebKey.dump(self, public)
def public_of(E, a, k):
    v = a[1] if len(a) > 1 else k.get("public", True)
    return v if isinstance(v, bool) else None

def p_dump(E, a, k):
    return bool(E.ghost.get("opaque_keys")) and isinstance(a[0], Sym) and public_of(E, a, k) is not None

def s_dump(E, a, k):
    if E.checking is not None: return again(E, lambda E: plain(E, lambda: E.call(BoundM(JK.JsonWebKey.__dict__["dump"], a[0], JK.JsonWebKey), a[1:], k)))
    o = Val.oid(a[0].t)
    p = public_of(E, a, k)
    E.may_raise([RuntimeError, X.InvalidKey], Not(key_dumps(o, p)))
    t = key_dump(o, p)
    E.fact(Val.is_vdict(t))
    return Sym(t)

def a_dump(fam, public):
    def args(E):
        d, k = sym_key(E, fam)
        if not k.ok: raise PathEnd
        return [k.v, public], {}
    return args

def same_dump(E, g, w):
    return E.same_dict(g, w)

def build():
    out = []
    t = C.find(JK, "JsonWebKey")
    if t is not None:
        out.append(Contract("psion.jose.jwk.JsonWebKey", t, s_key, None, p_key, same=same_key, call=lambda E, a, k: E.construct(t, a, k), budget=150,
                            shards=[(f or "unknown", a_key(f), ("raises",) if not f else ("returns", "raises")) for f in FAMS + ("",)] + [("not a dictionary", a_key(None), ("raises",))]))
    f = C.find(JK, "JsonWebKey", "dump")
    if f is not None:
        out.append(Contract("psion.jose.jwk.JsonWebKey.dump", f, s_dump, None, p_dump, same=same_dump, budget=150,
                            shards=[(f"{x} {'public' if p else 'private'}", a_dump(x, p), ("returns",)) for x in FAMS for p in (True, False)]))
    return out
