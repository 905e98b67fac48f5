from pv.prove import *
import psion.webtools as W

def enc_dec(E):
    x = E.bytes_arg("data")
    r = E.do(W.base64url_encode, x)
    if not r.ok: return E.ensure("encoding bytes succeeds", False)
    E.cover("encoded")
    E.ensure("the encoding is unpadded base64url", E.same(r.v, E.mky(b64u_of(E, E.str_t(x)))))
    d = E.do(W.base64url_decode, r.v)
    E.ensure("decoding the encoding succeeds", d.ok)
    if d.ok: E.ensure("decoding the encoding gives the bytes back", E.same(d.v, x))

def enc_text(E):
    x = E.str_arg("data")
    r = E.do(W.base64url_encode, x)
    E.ensure("encoding text succeeds", r.ok)
    if r.ok:
        E.cover("encoded")
        E.ensure("text is encoded as its UTF-8 bytes", E.same(r.v, E.mky(b64u_of(E, encode_t(E, E.str_t(x))))))

def ints(E):
    n = E.int_arg("n")
    r = E.do(W.int_to_b64, n)
    if not r.ok:
        E.cover("refused")
        return E.ensure("only negative integers are refused", Val.i(n.t) < 0)
    E.cover("encoded")
    E.ensure("negative integers are refused", Val.i(n.t) >= 0)
    d = E.do(W.b64_to_int, r.v)
    E.ensure("decoding succeeds", d.ok)
    if d.ok: E.ensure("integer round trip (bytes)", E.same(d.v, n))
    s = E.do(W.to_string, r.v)
    d = E.do(W.b64_to_int, s.v) if s.ok else s
    E.ensure("decoding the text form succeeds", d.ok)
    if d.ok: E.ensure("integer round trip (text)", E.same(d.v, n))

def nonints(E):
    n = E.arg("n")
    E.assume(z3.Not(z3.Or(Val.is_vint(n.t), Val.is_vbool(n.t))))
    r = E.do(W.int_to_b64, n)
    E.cover("called")
    E.ensure("a value that is not an integer is refused", not r.ok)

def text(E):
    x = E.str_arg("text")
    r = E.do(W.to_bytes, x)
    E.ensure("text becomes bytes", r.ok)
    if r.ok:
        s = E.do(W.to_string, r.v)
        E.ensure("bytes become text", s.ok)
        if s.ok: E.cover("both"); E.ensure("text round trip", E.same(s.v, x))
    same = E.do(W.to_string, x)
    E.ensure("text stays text", same.ok and E.same(same.v, x))

def octets(E):
    x = E.bytes_arg("octets")
    r = E.do(W.to_string, x)
    E.ensure("any bytes can be turned into text", r.ok)
    if r.ok:
        E.ensure("the result is text", E.kind(r.v) == "str")
        b = E.do(W.to_bytes, r.v)
        E.ensure("back to bytes", b.ok)
        E.cover("both")
        if b.ok: E.ensure("bytes round trip on UTF-8", Implies(is_utf8(E.str_t(x)), E.same(b.v, x)))
    b = E.do(W.to_bytes, x)
    E.ensure("bytes stay bytes", b.ok and E.same(b.v, x))

def nones(E):
    for f in (W.to_bytes, W.to_string, W.b64_to_int):
        r = E.do(f, None)
        E.cover("called")
        E.ensure(f"{f.__name__}(None) is None", r.ok and r.v is None)

def proofs():
    return [
        Proof("C13.base64url", enc_dec, ["encoded"], "base64url_decode(base64url_encode(x)) == x for every byte string x"),
        Proof("C13.base64url-text", enc_text, ["encoded"]),
        Proof("C13.integers", ints, ["encoded", "refused"], "b64_to_int(int_to_b64(n)) == n for every integer n >= 0"),
        Proof("C13.not-integers", nonints, ["called"]),
        Proof("C13.text", text, ["both"]),
        Proof("C13.octets", octets, ["both"]),
        Proof("C13.none", nones, ["called"]),
    ]
