from pv.prove import *
from pv.oauth import *
from pv.contracts_oauth import *
from props.p18 import conditions
from psion.oidc.flows import AuthorizationCodeFlow
CLAIMS = ("iss", "aud", "exp", "iat", "at_hash", "nonce", "nbf", "jti", "auth_time", "max_age", "sub")
VEngine.literals = VEngine.literals | set(CLAIMS) | {"openid", "kid", "alg", "typ", "id_token", "key"}

def begin(E, fam, a):
    d, k = sym_key(E, fam, ALG_CURVE.get(a), True if fam != "oct" else None)
    if not k.ok: raise PathEnd
    E.assume(nonempty_str(at(E, d, "kid")))
    for n, v in (("alg", a), ("use", "sig")): E.assume(z3.Or(Val.is_absent(at(E, d, n)), at(E, d, n) == E.term(v)))
    for _, f in restrictions(E, d, HDict(layers=[("alg", a)])): E.assume(f)      # a key that may sign with the algorithm: C03
    E.ghost["key_info"] = lambda E: HDict(layers=[("key", k.v), ("alg", a)])
    E.ghost["userinfo_lacks"] = tuple(n for n in CLAIMS if n != "sub")
    p, ad, g = the_grant(E, AuthorizationCodeGrant)
    h = E.do(E.getattr(p, "add_hook"), AuthorizationCodeGrant, AuthorizationCodeFlow)
    E.ensure("OpenID Connect can be enabled", h.ok)
    r = params_arg(E)
    for n in ("code", "redirect_uri", "code_verifier"): E.assume(z3.Not(Val.is_absent(at(E, r, n))))
    c = any_client(E)
    t0 = start_clock(E)
    o, cs = conditions(E, r, c, z3.Real("far"))
    for _, f in cs: E.assume(f)        # a code that is redeemed: C18
    E.ghost["latest"] = z3.Real("far")
    return d, g, r, c, t0, o

def run(fam, a):
    def go(E):
        d, g, r, c, t0, o = begin(E, fam, a)
        out = E.do(E.getattr(g, "token"), r, c)
        if any(True for x in E.ghost.get("reads", ())): E.assume(z3.And([x < z3.Real("far") for x in E.ghost["reads"]]))
        t1 = end_clock(E)
        opened = l_has(k_scopes(o), E.term("openid"))
        if not out.ok:
            E.cover("failed")
            return E.ensure("a redemption without openid does not fail", opened)
        v = at(E, out.v, "id_token") if E.kind(out.v) == "dict" else Val.absent
        E.ensure("an ID token is returned if and only if openid was granted", Iff(z3.Not(Val.is_absent(v)), opened))
        if kind_of_term(v) == "absent": return E.cover("no ID token")
        E.cover("ID token")
        tok = E.wrap(v)
        if E.kind(tok) != "str": return E.ensure("the ID token is text", False)
        made = calls(E, "create_access_token")
        ui = calls(E, "get_userinfo")
        E.ensure("the user's info is asked for", bool(ui) and len(made) == 1)
        if not ui or not made: return
        for t in ui:
            E.ensure("the info is that of the user of the code", same_obj(t[1][0], "user", u_obj(k_user(o))))
            E.ensure("the info is for the granted scopes", same_words(E, t[1][1], k_scopes(o)))
        l = split_raw(E, E.str_t(E.do(W.to_bytes, tok).v), sval("."), "bytes")
        if not isinstance(l, HList) or len(l.items) != 3: return E.ensure("the ID token has three parts", False)
        q0, q1, q2 = [E.do(W.base64url_decode, x) for x in l.items]
        if not (q0.ok and q1.ok and q2.ok): return E.ensure("the three parts are base64url", False)
        h, p = E.do(W.json_loads, q0.v), E.do(W.json_loads, q1.v)
        if not (h.ok and p.ok and E.kind(h.v) == E.kind(p.v) == "dict"): return E.ensure("header and claims are JSON objects", False)
        E.ensure("the header names the algorithm and the key", z3.And(at(E, h.v, "alg") == E.term(a), at(E, h.v, "kid") == at(E, d, "kid")))
        data = cat(E.str_t(l.items[0]), sval("."), E.str_t(l.items[1]))
        E.ensure("the ID token is signed with the configured key and algorithm", signature_ok(E, a, fam, material(E, d, fam), data, E.str_t(q2.v), ALG_CURVE.get(a)))
        p = p.v
        iat, exp, no = at(E, p, "iat"), at(E, p, "exp"), k_nonce(o)
        E.ensure("iss is the issuer", at(E, p, "iss") == E.term(E.inputs["issuer"]))
        E.ensure("aud is the client", at(E, p, "aud") == Val.vstr(c_id(c.ghost["oid"])))
        E.ensure("iat is now", z3.And(Val.is_vint(iat), z3.ToReal(Val.i(iat)) > t0 - 1, z3.ToReal(Val.i(iat)) <= t1))
        E.ensure("exp is the lifespan later", z3.And(Val.is_vint(exp), Val.i(exp) == Val.i(iat) + Val.i(E.term(E.inputs["id_token_lifespan"]))))
        E.ensure("at_hash is the half hash of the access token", at(E, p, "at_hash") == E.term(s_half(E, [made[0][3], a], {})))
        E.ensure("nonce is the one of the authorization request", z3.And(z3.Implies(Val.is_none(no), Val.is_absent(at(E, p, "nonce"))), z3.Implies(nonempty_str(no), at(E, p, "nonce") == no)))
        q = z3.Const("in_claim", Val)
        E.assume(z3.And(Val.is_vstr(q), *[q != E.term(n) for n in CLAIMS if n != "sub"]))
        E.ensure("every other claim is the user's info", E.get(p, E.wrap(q)) == z3.Select(filt_arr(E, d_arr(E.ghost["userinfo"][-1])), q))
    return go

def proofs():
    out = []
    for fam in FAMS:
        for a in FAM_ALGS[fam]:
            out.append(Proof(f"C28.{a}", run(fam, a), ["no ID token", "ID token"], f"redemption of any code with OpenID Connect and a key for {a}", budget=150))
    return out
