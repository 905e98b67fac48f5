from .core import *
from .keys import *
import json, base64
from psion.jose import *
from psion.jose.jwk import JsonWebKey, JsonWebKeySet
from psion.jose.jws import JsonWebSignature, JsonWebSignatureHeader
from psion.jose.jwt import JsonWebToken, JsonWebTokenClaims

def key_of(j):
    try: return JsonWebKey(dict(j))
    except Exception: return None

def dec(b):
    """Lenient base64url decoding as the library does it, or None."""
    try: return base64.urlsafe_b64decode(b + b"=" * (len(b) % 4))
    except Exception: return None

def mk(hdr, payload, jwk=None, alg=None, sig=None):
    """Token with the given header object, payload bytes, signed by the reference."""
    h = u(json.dumps(hdr).encode() if not isinstance(hdr, (bytes, str)) else (hdr if isinstance(hdr, bytes) else hdr.encode())).encode()
    p = u(payload).encode()
    if sig is None: sig = u(ref_sign(jwk, alg or hdr["alg"], h + b"." + p)).encode()
    return h + b"." + p + b"." + sig

def accepted_ok(tok, j, header, payload):
    """None if returning (header, payload) for token tok under key j is right, else what is wrong."""
    parts = tok.split(b".") if isinstance(tok, bytes) else None
    if parts is None or len(parts) != 3: return f"a token with {len(parts or ())} parts was accepted"
    h = dec(parts[0]); p = dec(parts[1]); s = dec(parts[2])
    try: hd = json.loads(h)
    except Exception: return "the header does not decode"
    if dict(header) != {k: v for k, v in hd.items() if v is not None}: return f"returned header {dict(header)} is not the token's header {hd}"
    if payload is not None and payload != p: return f"returned payload {payload!r} is not the token's payload {p!r}"
    alg = hd.get("alg")
    if alg == "none": return "an unsecured token with a signature part was accepted" if parts[2] else None
    if s is None or not ref_verify(j, alg, parts[0] + b"." + parts[1], s): return f"the signature does not verify under the key with {alg}"
    return None

def any_key(g, alg=None):
    f = fam(alg) if alg else g.one(list(pool()))
    return g.one(pool()[f])

B64C = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
def mutate(g, tok):
    b = bytearray(tok)
    k = g.int(0, 8)
    if k <= 2 and b:
        i = g.int(0, len(b) - 1); b[i] = ord(g.one(B64C)); return bytes(b)
    if k == 3: return tok + g.one(b".", b"a", b"=", b" ", b"\n", b".a")
    if k == 4: return g.one(b".", b"a", b" ") + tok
    parts = tok.split(b".")
    if k == 5: g.r.shuffle(parts); return b".".join(parts)
    if k == 6: return b".".join(parts[:g.int(0, 2)])
    if k == 7: i = g.int(0, 2); parts[i] = b""; return b".".join(parts)
    i = g.int(0, 2); parts[i] = parts[i][: g.int(0, len(parts[i]))]; return b".".join(parts)

def payloads(g):
    return g.one([b"", b"{}", b'{"a":1}', g.bytes_(), g.bytes_(), g.text().encode(), json.dumps(g.json()).encode(), b"\xff" * g.int(1, 5), b"a.b"])
