"""Reference key material, made with the cryptography package directly, as JWK dictionaries."""
import base64, os, hashlib, hmac as _hmac
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import ec, padding, rsa
from cryptography.exceptions import InvalidSignature as CIS

B = default_backend()
CURVE = {"P-256": ec.SECP256R1, "P-384": ec.SECP384R1, "P-521": ec.SECP521R1}
HASH = {"256": hashes.SHA256, "384": hashes.SHA384, "512": hashes.SHA512}
PRIV = ("d", "p", "q", "dp", "dq", "qi")

def u(b): return base64.urlsafe_b64encode(b).rstrip(b"=").decode()
def i2b(n): return u(n.to_bytes(max((n.bit_length() + 7) // 8, 1), "big"))
def ub(s): return base64.urlsafe_b64decode(s + "=" * (-len(s) % 4))
def b2i(s): return int.from_bytes(ub(s), "big")

def oct_jwk(n=32): return {"kty": "oct", "k": u(os.urandom(n))}
def rsa_jwk(bits=1024):
    k = rsa.generate_private_key(65537, bits, B).private_numbers()
    return {"kty": "RSA", "n": i2b(k.public_numbers.n), "e": i2b(k.public_numbers.e), "d": i2b(k.d), "p": i2b(k.p), "q": i2b(k.q), "dp": i2b(k.dmp1), "dq": i2b(k.dmq1), "qi": i2b(k.iqmp)}
def ec_jwk(crv="P-256"):
    k = ec.generate_private_key(CURVE[crv](), B).private_numbers()
    p = k.public_numbers
    return {"kty": "EC", "crv": crv, "x": i2b(p.x), "y": i2b(p.y), "d": i2b(k.private_value)}
def pub(j): return {k: v for k, v in j.items() if k not in PRIV} if j["kty"] != "oct" else dict(j)

_pool = None
def pool():
    global _pool
    if _pool is None:
        _pool = {"oct": [oct_jwk(32), oct_jwk(64), oct_jwk(1), {"kty": "oct", "k": u(b"\x00" * 32)}], "RSA": [rsa_jwk(1024), rsa_jwk(1100)], "P-256": [ec_jwk("P-256")], "P-384": [ec_jwk("P-384")], "P-521": [ec_jwk("P-521")]}
        # coordinates and private values with leading zero octets
        for _ in range(400):
            k = ec_jwk("P-256")
            if len(ub(k["x"])) < 32 or len(ub(k["y"])) < 32: _pool["P-256"].append(k); break
    return _pool

def fam(alg):
    return {"HS": "oct", "RS": "RSA", "PS": "RSA"}.get(alg[:2]) or {"ES256": "P-256", "ES384": "P-384", "ES512": "P-521"}.get(alg)

ALGS = [p + n for p in ("HS", "RS", "ES", "PS") for n in ("256", "384", "512")]

def rsa_pub(j): return rsa.RSAPublicNumbers(b2i(j["e"]), b2i(j["n"])).public_key(B)
def rsa_prv(j): return rsa.RSAPrivateNumbers(b2i(j["p"]), b2i(j["q"]), b2i(j["d"]), b2i(j["dp"]), b2i(j["dq"]), b2i(j["qi"]), rsa.RSAPublicNumbers(b2i(j["e"]), b2i(j["n"]))).private_key(B)
def ec_pub(j): return ec.EllipticCurvePublicNumbers(b2i(j["x"]), b2i(j["y"]), CURVE[j["crv"]]()).public_key(B)
def ec_prv(j): return ec.EllipticCurvePrivateNumbers(b2i(j["d"]), ec.EllipticCurvePublicNumbers(b2i(j["x"]), b2i(j["y"]), CURVE[j["crv"]]())).private_key(B)

def pad(alg, h): return padding.PKCS1v15() if alg[:2] == "RS" else padding.PSS(padding.MGF1(h), padding.PSS.MAX_LENGTH)

def ref_sign(j, alg, msg):
    h = HASH[alg[2:]]()
    if alg[:2] == "HS": return _hmac.new(ub(j["k"]), msg, "sha" + alg[2:]).digest()
    if alg[:2] in ("RS", "PS"): return rsa_prv(j).sign(msg, pad(alg, h), h)
    return ec_prv(j).sign(msg, ec.ECDSA(h))

def ref_verify(j, alg, msg, sig):
    """Does sig verify under key j with the hash and padding of alg over msg?"""
    if alg not in ALGS: return False
    h = HASH[alg[2:]]()
    if j.get("kty") != {"HS": "oct", "RS": "RSA", "PS": "RSA", "ES": "EC"}[alg[:2]]: return False
    if alg[:2] == "HS": return _hmac.compare_digest(_hmac.new(ub(j["k"]), msg, "sha" + alg[2:]).digest(), sig)
    if alg[:2] == "ES" and j.get("crv") != fam(alg): return False
    try:
        if alg[:2] in ("RS", "PS"): rsa_pub(j).verify(sig, msg, pad(alg, h), h)
        else: ec_pub(j).verify(sig, msg, ec.ECDSA(h))
        return True
    except CIS: return False
