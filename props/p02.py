from pv.prove import *
from pv.specs_jose import *

def pin(E):
    """deserialize(token, key, algorithm=A) with A stated: only tokens of algorithm A, with or without validation."""
    key = any_jwk(E)
    t = E.bytes_arg("token")
    A = E.arg("algorithm")
    E.assume(truthy_t(E, A.t))
    val = [True, False][E.choose(2)]
    r = E.do(JsonWebSignature.deserialize, t, key, A, val)
    if not r.ok: return E.cover("rejected")
    E.cover("accepted")
    E.ensure("the token's algorithm is the one the caller stated", peq(E, A.t, at(E, E.getattr(r.v, "header"), "alg")))

def pin_jwt(E):
    key = any_jwk(E)
    t = E.str_arg("token")
    A = E.arg("algorithm")
    E.assume(truthy_t(E, A.t))
    start_clock(E)
    r = E.do(JsonWebToken.decode, t, key, algorithm=A)
    if not r.ok: return E.cover("rejected")
    E.cover("accepted")
    E.ensure("the token's algorithm is the one the caller stated", peq(E, A.t, at(E, E.getattr(r.v, "header"), "alg")))

def alg_use(a, op, fam, crv):
    """The algorithm used directly with any key of a family and curve."""
    fits = a in FAM_ALGS[fam] and (fam != "EC" or ALG_CURVE[a] == crv)
    def run(E):
        d, k = sym_key(E, fam, crv)
        if not k.ok: return
        A = getattr(AJS, a)
        data = E.bytes_arg("data")
        if op == "sign": r = E.do(A.sign, data, k.v)
        else:
            s = E.bytes_arg("signature")
            r = E.do(A.verify, s, data, k.v)
        E.cover("accepted" if r.ok else "rejected")
        if not fits: return E.ensure(f"{a} is refused with a key of type {fam}{' on ' + crv if crv else ''}", not r.ok)
        if not r.ok: return
        m = material(E, d, fam)
        if op == "sign":
            out = E.do(W.base64url_decode, r.v)
            if not out.ok: return E.ensure("the signature is base64url", False)
            E.ensure(f"{a} signs with the hash and padding of its name", signature_ok(E, a, fam, m, E.str_t(data), E.str_t(out.v), crv))
        else:
            E.ensure(f"{a} verifies with the hash and padding of its name", signature_ok(E, a, fam, m, E.str_t(data), ub_dec(E.str_t(s)), crv))
    return run, fits

def mismatch(fam, crv):
    """Signing a JWS whose header names an algorithm that is not for the key."""
    def run(E):
        d, k = sym_key(E, fam, crv)
        if not k.ok: return
        h = E.dict_arg("header")
        own = [a for a in FAM_ALGS[fam] if crv is None or ALG_CURVE[a] == crv]
        E.assume(z3.Not(z3.Or([at(E, h, "alg") == E.term(a) for a in own + ["none"]])))
        j = E.do(JsonWebSignature, E.bytes_arg("payload"), h)
        r = E.do(E.getattr(j.v, "serialize"), k.v) if j.ok else j
        E.cover("rejected")
        E.ensure("an algorithm that is not for this key is refused", not r.ok)
    return run

def proofs():
    out = [Proof("C02.pin", pin, ["accepted", "rejected"], "deserialize with a stated algorithm"), Proof("C02.pin.jwt", pin_jwt, ["accepted", "rejected"], "decode with a stated algorithm")]
    for fam in FAMS:
        for crv in CURVE if fam == "EC" else [None]:
            n = fam + (f".{crv}" if crv else "")
            out.append(Proof(f"C02.serialize.{n}", mismatch(fam, crv), ["rejected"], "signing with an algorithm not for the key"))
            for op in ("sign", "verify"):
                for a in ALGS:
                    if a == "none": continue
                    run, fits = alg_use(a, op, fam, crv)
                    out.append(Proof(f"C02.{op}.{a}.{n}", run, ["accepted"] if fits else ["rejected"], f"{a}.{op} with a key {n}"))
    return out
