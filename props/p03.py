from pv.prove import *
from pv.specs_jose import *

def met(E, what, kd, h):
    for label, f in restrictions(E, kd, h): E.ensure(f"{what}: {label}", E.skolem(f))

def accept(E):
    key = any_jwk(E)
    pin = E.arg("algorithm") if E.choose(2) else None
    r = E.do(JsonWebSignature.deserialize, E.bytes_arg("token"), key, pin)
    if not r.ok: return E.cover("rejected")
    E.cover("accepted")
    met(E, "accepted (JWS)", key.attrs["data"], E.getattr(r.v, "header"))

def accept_jwt(E):
    key = any_jwk(E)
    start_clock(E)
    r = E.do(JsonWebToken.decode, E.str_arg("token"), key)
    if not r.ok: return E.cover("rejected")
    E.cover("accepted")
    met(E, "accepted (JWT)", key.attrs["data"], E.getattr(r.v, "header"))

def sign(fam, crv, jwt=False):
    def run(E):
        d, k = sym_key(E, fam, crv)
        if not k.ok: return
        h = E.dict_arg("header")
        own = [a for a in FAM_ALGS[fam] if crv is None or ALG_CURVE[a] == crv] + ["none"]
        a = own[E.choose(len(own))]
        E.assume(at(E, h, "alg") == E.term(a))      # with any other algorithm nothing is signed: C02
        if jwt:
            start_clock(E)
            o = E.do(JsonWebToken, E.dict_arg("claims"), h)
            r = E.do(E.getattr(o.v, "encode"), k.v) if o.ok else o
        else:
            o = E.do(JsonWebSignature, E.bytes_arg("payload"), h)
            r = E.do(E.getattr(o.v, "serialize"), k.v) if o.ok else o
        if not r.ok: return E.cover("rejected")
        E.cover("signed")
        met(E, "signed", d, h)
    return run

def direct(a, op):
    """The algorithm itself refuses a key that declares another."""
    def run(E):
        fam = next(f for f in FAMS if a in FAM_ALGS[f])
        d, k = sym_key(E, fam, ALG_CURVE.get(a))
        if not k.ok: return
        A = getattr(AJS, a)
        r = E.do(A.sign, E.bytes_arg("data"), k.v) if op == "sign" else E.do(A.verify, E.bytes_arg("signature"), E.bytes_arg("data"), k.v)
        if not r.ok: return E.cover("rejected")
        E.cover("accepted")
        alg = getn(at(E, d, "alg"))
        E.ensure("the key's alg is the algorithm", z3.Implies(truthy_t(E, alg), peq(E, alg, E.term(a))))
    return run

def not_a_key(op):
    def run(E):
        k = E.arg("not_a_key")
        if op == "sign":
            o = E.do(JsonWebSignature, E.bytes_arg("payload"), E.dict_arg("header"))
            r = E.do(E.getattr(o.v, "serialize"), k) if o.ok else o
        else:
            r = E.do(JsonWebSignature.deserialize, E.bytes_arg("token"), k)
        E.cover("rejected")
        E.ensure("something that is not a key object is refused", not r.ok)
    return run

def proofs():
    out = [Proof("C03.accept", accept, ["accepted", "rejected"], "deserialize with validation"), Proof("C03.accept.jwt", accept_jwt, ["accepted", "rejected"], "decode with validation")]
    for op in ("sign", "verify"):
        out.append(Proof(f"C03.not-a-key.{op}", not_a_key(op), ["rejected"], "any value that is not a key object"))
        for a in ALGS:
            if a != "none": out.append(Proof(f"C03.{op}.{a}", direct(a, op), ["accepted", "rejected"], f"{a}.{op} with a key that declares an algorithm"))
    for fam in FAMS:
        for crv in CURVE if fam == "EC" else [None]:
            n = fam + (f".{crv}" if crv else "")
            out.append(Proof(f"C03.serialize.{n}", sign(fam, crv), ["signed", "rejected"], f"serialize with a key {n}"))
            out.append(Proof(f"C03.encode.{n}", sign(fam, crv, True), ["signed", "rejected"], f"encode with a key {n}"))
    return out
