from pv.prove import *
import psion.webtools as W
import psion.oauth2.grants.authorization_code as AC

def token(E):
    n = E.int_arg("size")
    E.assume(Val.i(n.t) >= 1)
    r = E.do(W.secret_token, n)
    E.ensure("a token is produced", r.ok)
    if not r.ok: return
    E.cover("token")
    E.ensure("it is text", E.kind(r.v) == "str")
    t = E.str_t(r.v)
    E.ensure("it has the requested length", z3.Length(t) == Val.i(n.t))
    E.ensure("each character is an independent draw from the 64 URL-safe characters", random_text(E, t) == URL64)

def challenge(which):
    def run(E):
        f = getattr(AC.AuthorizationCodeGrant, "_challenges")[which]
        c, v = E.str_arg("challenge"), E.str_arg("verifier")
        r = E.do(f, c, v)
        E.ensure("never raises", r.ok)
        if not r.ok: return
        E.cover("called")
        got = E.truthy(r.v)
        vs = E.str_t(v)
        if which == "plain": want = E.str_t(c) == vs
        else:
            h = sha("sha256")(vs)
            E.fact(z3.Length(h) == 32)
            want = z3.And(is_ascii(vs), E.str_t(c) == b64u_of(E, h))
        E.ensure(f"{which} matches exactly when its definition says", Iff(got, want))
    return run

def half(E):
    names = half_hash_names()
    alg = names[E.choose(len(names))]
    tok = E.str_arg("access_token")
    r = E.do(W.create_half_hash, tok, alg)
    E.ensure(f"half hash exists for {alg}", r.ok)
    if r.ok:
        E.cover(alg)
        E.ensure(f"half hash for {alg}", E.same(r.v, s_half(E, [tok, alg], {})))

def known(E):
    E.cover("x")
    E.ensure("the known PKCE methods are plain and S256", set(AC.AuthorizationCodeGrant._challenges) == {"plain", "S256"})

def proofs():
    return [Proof("C31.secret_token", token, ["token"]), Proof("C31.plain", challenge("plain"), ["called"]), Proof("C31.S256", challenge("S256"), ["called"]),
            Proof("C31.half_hash", half, half_hash_names()), Proof("C31.methods", known, ["x"])]
