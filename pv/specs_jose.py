"""Specification of keys, algorithms and signatures (C01-C04, C09-C12)."""
from .verify import *
from .libmodels import *
from .models import *
from .contracts import *
from .specs import *
from .contracts_keys import oct_bytes, oct_dec, rsa_parts, CURVE, raw
from .contracts_jose import restrictions
import json, binascii
from . import contracts as C
from .heap import Lazy
import psion.jose.exceptions as X
import psion.jose.jws as JS
import psion.jose.jwa.jws as AJS
import psion.webtools as W
from psion.jose.jwa.jwk import JWKAlgorithm
from psion.jose.jwk import JsonWebKey, JsonWebKeySet
from psion.jose.jws import JsonWebSignature, JsonWebSignatureHeader
from psion.jose.jwt import JsonWebToken, JsonWebTokenClaims

FAMS = ("oct", "RSA", "EC")
FAM_ALGS = {"oct": ["HS256", "HS384", "HS512"], "RSA": ["RS256", "RS384", "RS512", "PS256", "PS384", "PS512"], "EC": ["ES256", "ES384", "ES512"]}
ALG_CURVE = {"ES256": "P-256", "ES384": "P-384", "ES512": "P-521"}
def hash_of(alg): return "sha" + alg[2:]

def sym_key(E, fam, crv=None, priv=None, name="key"):
    """An arbitrary key object of a family (curve), built by the real constructor. (data, Out)"""
    d = E.dict_arg(name)
    E.assume(at(E, d, "kty") == E.term(fam))
    if crv is not None: E.assume(at(E, d, "crv") == E.term(crv))
    if priv is not None:
        t = truthy_t(E, getn(at(E, d, "d")))
        E.assume(t if priv else z3.Not(t))
    return d, E.do(JsonWebKey, d)

def material(E, d, fam):
    """What the key dictionary stands for."""
    if fam == "oct":
        return dict(secret=oct_dec(E, oct_bytes(E, at(E, d, "k"))))
    if fam == "RSA":
        N, e, priv, g, _, _ = rsa_parts(E, E.dict_of(d))
        return dict(n=N, e=e, priv=priv, **g)
    x, y, dd = raw(E, E.dict_of(d), "x", "y", "d")
    return dict(x=ki_val(x), y=ki_val(y), d=ki_val(dd), priv=truthy_t(E, dd))

def good_pad(p, alg):
    if alg[:2] == "RS": return p == "PKCS1v15"
    return p.startswith(f"PSS/MGF1({hash_of(alg)})/")

def signature_ok(E, alg, fam, m, data, sig, crv=None):
    """sig is a signature of data under the key material with the hash and padding of alg."""
    h = sval(hash_of(alg))
    if fam == "oct": return sig == hm_tag(h, m["secret"], data)
    if fam == "RSA":
        return Or(*[rsa_valid(sval(p), h, m["n"], m["e"], data, sig) for p in sorted(E.ghost.get("pads", ())) if good_pad(p, alg)])
    return ec_valid(h, sval(CURVE[ALG_CURVE[alg]]), m["x"], m["y"], data, sig)

def token3(E, tok):
    """The three parts of a token that has three."""
    l = split_raw(E, E.str_t(tok), sval("."), "bytes")
    if isinstance(l, HList):
        E.promise(z3.BoolVal(len(l.items) == 3))
        return [E.str_t(x) for x in l.items]
    L = Val.lid(l.t) if kind_of_term(l.t) is None else l.t.arg(0)
    E.promise(l_len(L) == 3)
    split_facts(E, L, 3)
    ps = [Val.y(l_item(L, z3.IntVal(i))) for i in range(3)]
    E.fact(z3.And(*[Val.is_vbytes(l_item(L, z3.IntVal(i))) for i in range(3)]))
    return ps

def decode_header(E, p0):
    """What the header part of a token says (the library's own decoders, which C13 covers), or None."""
    b = E.do(W.base64url_decode, E.mky(p0))
    if not b.ok: return None
    h = E.do(W.json_loads, b.v)
    if not h.ok: return None
    if not E.branch(Val.is_vdict(E.term(h.v))): return None
    return h.v


# ---- the contract of JsonWebSignature.deserialize(token, key, algorithm, validate=True)
jws_ok = uf("jws_ok", Val, I, S, S, B)      # alg, key, signed text, signature: opaque; its meaning is signature_ok, unfolded where the body is checked
JWS_ERRS = [X.InvalidJWSSerialization, X.InvalidJWSHeader, X.UnsupportedAlgorithm, X.InvalidKey, X.InvalidSignature, TypeError, ValueError, binascii.Error, json.JSONDecodeError, UnicodeEncodeError]

def key_id(E, key):
    t = E.ghost.setdefault("key_ids", {})
    if id(key) not in t: t[id(key)] = (z3.IntVal(len(t)), key)
    return t[id(key)][0]

def is_key(E, v):
    return isinstance(v, HObj) and v.cls is JsonWebKey and E.kind(v.attrs.get("data")) == "dict" and isinstance(v.attrs.get("_algorithm"), HObj)

def any_jwk(E, name="key"):
    """A key object whatever its family: only code under contract looks inside."""
    o = HObj(JsonWebKey)
    o.attrs["data"] = E.dict_arg(name)
    o.attrs["_algorithm"] = HObj(JWKAlgorithm)
    return o

def bind(a, k, names, defaults):
    if isinstance(k, SymKw) or len(a) > len(names): return None
    d = dict(zip(names, a))
    for n, v in k.items():
        if n not in names or n in d: return None
        d[n] = v
    for n, v in defaults.items(): d.setdefault(n, v)
    return [d[n] for n in names] if set(d) == set(names) else None

DES = (["cls", "token", "key", "algorithm", "validate"], dict(algorithm=None, validate=True))
def p_deser(E, a, k):
    b = bind(a, k, *DES)
    return b is not None and b[0] is JsonWebSignature and E.kind(b[1]) == "bytes" and is_key(E, b[2]) and isinstance(b[3], (Sym, str, type(None))) and b[4] is True

def s_deser(E, a, k):
    cls, tok, key, algorithm, _ = bind(a, k, *DES)
    E.may_raise(JWS_ERRS)
    p0, p1, p2 = token3(E, tok)
    chk, E.checking = E.checking, None
    H = decode_header(E, p0)
    E.checking = chk
    if H is None: E.impossible()
    alg = getn(at(E, H, "alg"))
    hd = HDict(base=filt_arr(E, E.arr(E.dict_of(H))))
    if algorithm is not None:
        pin = E.term(algorithm)
        E.promise(z3.Implies(truthy_t(E, pin), peq(E, pin, alg)), "the algorithm is the one the caller stated")
    E.promise(z3.And(*[f for _, f in restrictions(E, key.attrs["data"], hd)]), "the key's restrictions are met")
    data, sig = cat(p0, sval("."), p1), ub_dec(p2)
    o = HObj(cls)
    h = o.attrs["header"] = HObj(JsonWebSignatureHeader)
    h.d = hd
    o.attrs["payload"] = E.mky(ub_dec(p1))
    if chk is None:
        E.assume(z3.Or(*[alg == E.term(n) for n in ALGS]))
        E.assume(z3.If(alg == E.term("none"), p2 == z3.StringVal(""), jws_ok(alg, key_id(E, key), data, sig)))
        def which(E):
            i = E.pick(alg, [E.term(n) for n in ALGS])
            if i is None: E.impossible()
            return getattr(AJS, ALGS[i])
        h.attrs["algorithm"] = Lazy(which)
        return o
    fam, d, crv = E.ghost["key of the case"]
    for n in ["none"] + [x for x in FAM_ALGS[fam] if crv is None or ALG_CURVE[x] == crv]:
        if E.branch(alg == E.term(n)): break
    else: E.impossible()
    h.attrs["algorithm"] = getattr(AJS, n)
    if n == "none": E.promise(p2 == z3.StringVal(""), "an unsigned token has an empty signature")
    else: E.promise(signature_ok(E, n, fam, material(E, d, fam), data, sig, crv), "the signature verifies")
    return o

def same_jws(E, g, w):
    if not (isinstance(g, HObj) and g.cls is w.cls): return False
    gh, wh = g.attrs.get("header"), w.attrs["header"]
    if not (isinstance(gh, HObj) and gh.cls is wh.cls and gh.d is not None and E.getattr(gh, "algorithm") is wh.attrs["algorithm"]): return False
    return And(E.same_dict(gh, wh), E.same(g.attrs.get("payload"), w.attrs["payload"]))

def case_args(fam, crv, algs):
    """Arguments of one case: algs is None for a header that is unreadable or names an algorithm not for this key, "shape" for a token without three parts."""
    def args(E):
        d, k = sym_key(E, fam, crv)
        if not k.ok: raise PathEnd
        E.ghost["key of the case"] = (fam, d, crv)
        t = E.bytes_arg("token")
        if algs == "shape":
            l = split_raw(E, E.str_t(t), sval("."), "bytes")
            E.assume(l_len(l.t.arg(0)) != 3)
        else:
            p0, p1, p2 = token3(E, t)
            H = decode_header(E, p0)
            if H is None and algs is not None: raise PathEnd
            if H is not None:
                alg = at(E, H, "alg")
                own = [a for a in FAM_ALGS[fam] if crv is None or ALG_CURVE[a] == crv]
                E.assume(alg == E.term(algs) if algs else z3.Not(z3.Or([alg == E.term(a) for a in own + ["none"]])))
        return [JsonWebSignature, t, k.v, E.arg("algorithm"), True], {}
    return args

def build():
    t = C.find(JS, "JsonWebSignature", "deserialize")
    t = getattr(t, "__func__", None)
    if t is None: return []
    shards = []
    for fam in FAMS:
        for crv in CURVE if fam == "EC" else [None]:
            n = fam + (f".{crv}" if crv else "")
            shards.append((n + ".shape", case_args(fam, crv, "shape"), ("raises",)))
            shards.append((n + ".other", case_args(fam, crv, None), ("raises",)))
            for a in ["none"] + [a for a in FAM_ALGS[fam] if crv is None or ALG_CURVE[a] == crv]:
                shards.append((f"{n}.{a}", case_args(fam, crv, a), ("raises", "returns")))
    return [Contract("psion.jose.jws.JsonWebSignature.deserialize", t, s_deser, None, p_deser, same=same_jws, budget=120, shards=shards)]
