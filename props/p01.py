from pv.prove import *
from pv.specs_jose import *

def shape(E):
    """A token without exactly three parts is rejected, whatever the key."""
    fam = FAMS[E.choose(3)]
    d, k = sym_key(E, fam)
    if not k.ok: return
    t = E.bytes_arg("token")
    l = split_raw(E, E.str_t(t), sval("."), "bytes")
    E.assume(l_len(l.t.arg(0)) != 3)
    r = E.do(JsonWebSignature.deserialize, t, k.v)
    E.cover("rejected")
    E.ensure("a token that has not exactly three parts is rejected", not r.ok)

def not_bytes(E):
    t = E.arg("token")
    E.assume(z3.Not(Val.is_vbytes(t.t)))
    d, k = sym_key(E, "oct")
    if not k.ok: return
    r = E.do(JsonWebSignature.deserialize, t, k.v)
    E.cover("rejected")
    E.ensure("only bytes are deserialized", not r.ok)

def jws(fam, algs, crv=None):
    """algs: the algorithms of the token; None: any header that is unreadable or names an algorithm not for this key."""
    def run(E):
        d, k = sym_key(E, fam, crv)
        if not k.ok: return
        t = E.bytes_arg("token")
        p0, p1, p2 = token3(E, t)
        H = decode_header(E, p0)
        if H is not None:
            alg = at(E, H, "alg")
            if algs is None:
                own = [a for a in FAM_ALGS[fam] if crv is None or ALG_CURVE[a] == crv]
                E.assume(z3.Not(z3.Or([alg == E.term(a) for a in own + ["none"]])))
            else:
                a = algs[E.choose(len(algs))]
                E.assume(alg == E.term(a))
        elif algs is not None: return
        r = E.do(JsonWebSignature.deserialize, t, k.v)
        E.cover("accepted" if r.ok else "rejected")
        if algs is None:
            return E.ensure("a token with an unreadable header, or an algorithm that is unknown or not for this key, is rejected", not r.ok)
        if not r.ok: return
        o = r.v
        E.ensure("the header returned is the decoding of the header part", E.same_dict(E.getattr(o, "header"), HDict(base=filt_arr(E, E.arr(E.dict_of(H))))))
        E.ensure("the payload returned is the decoding of the payload part", E.same(E.getattr(o, "payload"), E.mky(ub_dec(p1))))
        if a == "none":
            return E.ensure("an unsigned token is accepted only with an empty signature part", p2 == z3.StringVal(""))
        m = material(E, d, fam)
        E.ensure(f"the signature part verifies over the first two parts under the key ({a})", signature_ok(E, a, fam, m, cat(p0, sval("."), p1), ub_dec(p2), crv))
    return run

def jwt(kind):
    """JsonWebToken.decode over the contract of JsonWebSignature.deserialize: what the token's parts say, verified as the JWS rules demand."""
    def run(E):
        key = any_jwk(E)
        t = E.str_arg("token") if kind == "str" else E.bytes_arg("token")
        tb = E.do(W.to_bytes, t)
        start_clock(E)
        pin = E.arg("algorithm") if E.choose(2) else None
        opt = E.dict_arg("options") if E.choose(2) else None
        kw = {}
        if pin is not None: kw["algorithm"] = pin
        if opt is not None: kw["options"] = opt
        r = E.do(JsonWebToken.decode, t, key, **kw)
        if not r.ok: return E.cover("rejected")
        E.cover("accepted")
        o = r.v
        E.promise = lambda f, label="": E.ensure("the token has three parts", f)
        try: p0, p1, p2 = token3(E, tb.v)
        finally: del E.promise
        H = decode_header(E, p0)
        if H is None: return E.ensure("the header part is a JSON object", False)
        E.ensure("the header returned is the decoding of the header part", E.same_dict(E.getattr(o, "header"), HDict(base=filt_arr(E, E.arr(E.dict_of(H))))))
        c = E.do(W.json_loads, E.mky(ub_dec(p1)))
        E.ensure("the payload part is a JSON object", And(c.ok, Val.is_vdict(E.term(c.v)) if c.ok else False))
        if c.ok: E.ensure("the claims returned are the decoding of the payload part", E.same_dict(E.getattr(o, "claims"), HDict(base=filt_arr(E, E.arr(E.dict_of(c.v))))))
        if "psion.jose.jws.JsonWebSignature.deserialize" not in E.used_contracts: raise Unsupported("the contract of deserialize does not hold")
        alg = getn(at(E, H, "alg"))
        E.ensure("the token was verified under the given key, over its own first two parts", z3.If(alg == E.term("none"), p2 == z3.StringVal(""), jws_ok(alg, key_id(E, key), cat(p0, sval("."), p1), ub_dec(p2))))
    return run

DES = ("psion.jose.jws.JsonWebSignature.deserialize",)
def proofs():
    out = [Proof("C01.shape", shape, ["rejected"], "tokens without exactly three parts", inline=DES), Proof("C01.not-bytes", not_bytes, ["rejected"], inline=DES)]
    for kind in ("str", "bytes"):
        out.append(Proof(f"C01.jwt.{kind}", jwt(kind), ["accepted", "rejected"], "JsonWebToken.decode of any token under any key"))
    for fam in FAMS:
        for a in FAM_ALGS[fam]:
            out.append(Proof(f"C01.{fam}.{a}", jws(fam, [a], ALG_CURVE.get(a)), ["accepted"], f"deserialize of a token with algorithm {a} and a key of type {fam}", inline=DES))
        for crv in CURVE if fam == "EC" else [None]:
            n = f"C01.{fam}" + (f".{crv}" if crv else "")
            out.append(Proof(n + ".none", jws(fam, ["none"], crv), ["accepted"], f"deserialize of an unsigned token with a key of type {fam}", inline=DES))
            out.append(Proof(n + ".other", jws(fam, None, crv), ["rejected"], f"deserialize of any other token with a key of type {fam}", inline=DES))
    return out
