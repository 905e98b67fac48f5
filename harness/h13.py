from .core import *
import base64, re
import psion.webtools as W
RULE = "random and boundary byte strings, integers and texts; a case is one value, distinct by value"

def cases(g):
    for n in range(0, 70): yield ("b", bytes((i * 37 + n) % 256 for i in range(n)))
    for n in (0, 1, 127, 128, 255, 256, 65535, 65536, 2**64, 2**2048 + 1, -1, -256, True): yield ("i", n)
    for v in (None, "1", 1.0, b"1", [1], {}): yield ("x", v)
    for s in SPECIAL: yield ("s", s)
    while True:
        yield ("b", g.bytes_()); yield ("i", g.integer()); yield ("s", g.text()); yield ("o", g.bytes_())
        yield ("i", 2 ** (8 * g.int(0, 80)) + g.int(-2, 2))

def judge(c):
    k, v = c
    if k == "b":
        st, e = outcome(W.base64url_encode, v)
        if st != "ok": return f"base64url_encode({v!r}) raised {e!r}"
        ref = base64.urlsafe_b64encode(v).rstrip(b"=")
        if e != ref or type(e) is not bytes: return f"base64url_encode({v!r}) = {e!r}, unpadded base64url is {ref!r}"
        st, d = outcome(W.base64url_decode, e)
        if st != "ok" or d != v: return f"base64url_decode(base64url_encode({v!r})) gave {d!r}"
    elif k == "i":
        st, e = outcome(W.int_to_b64, v)
        if v < 0: return None if st == "raise" else f"int_to_b64({v}) accepted a negative integer: {e!r}"
        if st != "ok": return f"int_to_b64({v}) raised {e!r}"
        for x in (e, e.decode() if isinstance(e, bytes) else e):
            st, d = outcome(W.b64_to_int, x)
            if st != "ok" or d != v: return f"b64_to_int({x!r}) gave {d!r}, expected {v}"
        if not re.fullmatch(rb"[A-Za-z0-9_-]+", e): return f"int_to_b64({v}) = {e!r} is not unpadded base64url"
    elif k == "x":
        st, e = outcome(W.int_to_b64, v)
        if st == "ok": return f"int_to_b64({v!r}) accepted a value that is not an integer"
        if v is None:
            for f in (W.to_bytes, W.to_string, W.b64_to_int):
                st, r = outcome(f, None)
                if st != "ok" or r is not None: return f"{f.__name__}(None) gave {r!r}"
    elif k == "s":
        st, b = outcome(W.to_bytes, v)
        if st != "ok" or b != v.encode(): return f"to_bytes({v!r}) gave {b!r}"
        st, s = outcome(W.to_string, b)
        if st != "ok" or s != v: return f"to_string(to_bytes({v!r})) gave {s!r}"
        st, s = outcome(W.to_string, v)
        if st != "ok" or s != v: return f"to_string({v!r}) gave {s!r}"
        st, e = outcome(W.base64url_encode, v)
        if st != "ok" or e != base64.urlsafe_b64encode(v.encode()).rstrip(b"="): return f"base64url_encode({v!r}) gave {e!r}"
    elif k == "o":
        st, s = outcome(W.to_string, v)
        if st != "ok" or type(s) is not str: return f"to_string({v!r}) gave {s!r}"
        st, b = outcome(W.to_bytes, v)
        if st != "ok" or b != v: return f"to_bytes({v!r}) gave {b!r}"
        try: ok = v.decode()
        except UnicodeDecodeError: return None
        if s != ok or W.to_bytes(s) != v: return f"to_bytes(to_string({v!r})) is not the identity"
    return None

def from_model(name, inp):
    for k, v in inp.items():
        if isinstance(v, bytes): yield ("b", v); yield ("o", v)
        elif isinstance(v, str): yield ("s", v)
        elif isinstance(v, int): yield ("i", v)
        else: yield ("x", v)
