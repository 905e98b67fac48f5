from pv.prove import *
from pv.specs_jose import *

def signable(E, a, fam, d, h, m):
    """When signing must succeed: the key's restrictions are met and, for RSA, the modulus has room for the padding."""
    fs = [f for _, f in restrictions(E, d, h)]
    if fam == "RSA": fs += [rsa_fits(sval(p), sval(hash_of(a)), m["n"]) for p in sorted(E.ghost.get("pads", ()))]
    return z3.And(*fs)

def bad(E, *a):
    E.ensure(*a)
    return False

def run(fam, a, crv, half, jwt):
    def go(E):
        d, k = sym_key(E, fam, crv, True if fam != "oct" else None)
        if not k.ok: return
        h = E.dict_arg("header")
        E.assume(at(E, h, "alg") == E.term(a))
        hdr = HDict(base=filt_arr(E, E.arr(E.dict_of(h))))
        if jwt:
            E.ghost["frozen"] = start_clock(E)      # written and read at one instant, so that nothing expires in between
            c = E.dict_arg("claims")
            body = HDict(base=filt_arr(E, E.arr(E.dict_of(c))))
            E.assume(d_some(E.term(body).arg(0)))
            o = E.do(JsonWebToken, c, h)
        else:
            pay = E.bytes_arg("payload")
            o = E.do(JsonWebSignature, pay, h)
        if not o.ok: return         # headers and claims that are not well formed: C05, C07, C08
        m = material(E, d, fam) if a != "none" else None
        def fmt(E, tok):
            raw = E.do(W.to_bytes, tok).v if jwt else tok
            l = split_raw(E, E.str_t(raw), sval("."), "bytes")
            if not isinstance(l, HList) or len(l.items) != 3: return bad(E, "the serialization has three parts", False)
            q0, q1, q2 = [E.do(W.base64url_decode, x) for x in l.items]
            if not (q0.ok and q1.ok and q2.ok): return bad(E, "the three parts are base64url", False)
            j0 = E.do(W.json_loads, q0.v)
            E.ensure("the first part is the JSON of the header", And(j0.ok, E.kind(j0.v) == "dict" and E.same_dict(j0.v, hdr) if j0.ok else False))
            if jwt:
                j1 = E.do(W.json_loads, q1.v)
                E.ensure("the second part is the JSON of the claims", And(j1.ok, E.kind(j1.v) == "dict" and E.same_dict(j1.v, body) if j1.ok else False))
            else: E.ensure("the second part is the payload", E.same(q1.v, pay))
            data = cat(E.str_t(l.items[0]), sval("."), E.str_t(l.items[1]))
            if a == "none": E.ensure("the third part is empty", E.str_t(l.items[2]) == z3.StringVal(""))
            else: E.ensure("the third part is the signature over the first two", signature_ok(E, a, fam, m, data, E.str_t(q2.v), crv))
            return True
        s = E.do(E.getattr(o.v, "encode" if jwt else "serialize"), k.v)
        if not s.ok:
            E.cover("refused")
            return E.ensure("signing with a usable key succeeds", z3.Not(signable(E, a, fam, d, h, m)))
        E.cover("signed")
        if not half and not fmt(E, s.v): return
        k2 = k
        if half:
            k2 = E.do(JsonWebKey, E.do(E.getattr(k.v, "dump")).v)
            if not k2.ok: return E.ensure("the public half of the key is a key", False)
        pin = None if jwt or half else [None, a][E.choose(2)]
        r = E.do(JsonWebToken.decode if jwt else JsonWebSignature.deserialize, s.v, k2.v, pin)
        if not r.ok: return E.ensure(f"what was signed is accepted, not {r!r}", False)
        E.cover("read back")
        E.ensure("the same header", E.same_dict(E.getattr(r.v, "header"), hdr))
        if jwt: E.ensure("the same claims", E.same_dict(E.getattr(r.v, "claims"), body))
        else: E.ensure("the same payload", E.same(E.getattr(r.v, "payload"), pay))
    return go

def proofs():
    out = []
    for fam in FAMS:
        for a in FAM_ALGS[fam] + (["none"] if fam == "oct" else []):
            for half in (False, True) if fam != "oct" else (False,):
                for jwt in (False,) if half else (False, True):
                    out.append(Proof(f"C04.{'jwt' if jwt else 'jws'}.{a}" + (".public" if half else ""), run(fam, a, ALG_CURVE.get(a), half, jwt), ["signed", "read back"],
                        f"{'encode then decode' if jwt else 'serialize then deserialize'} with {a}" + (" and the public half" if half else ""), inline=["psion.jose.jws.JsonWebSignature.deserialize"], budget=120))
    return out
