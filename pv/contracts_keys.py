"""Contracts on the key classes of psion."""
from .verify import *
from .libmodels import *
from .models import *
from .specs import *
from .contracts import ki_raw, ki_given, ki_val, ki_ok, ki_facts
from . import contracts as C
import psion.jose.exceptions as X
import psion.jose.jwk as JK
import psion.jose.jwa.jwk as AJK

ERRS = [TypeError, UnicodeEncodeError, binascii.Error, ValueError]

def kwd(E, k):
    return kwdict(E, k)

def raw(E, d, *names):
    out = []
    for n in names:
        t = getn(E.get(d, n))
        ki_facts(E, t)
        out.append(z3.simplify(t))
    return out

def no_self(E, d):
    return Val.is_absent(E.get(d, "self"))

def p_kw(E, a, k):
    return not a

def a_kw(E):
    return [], SymKw(E.dict_of(E.dict_arg("key")), {})


# ---- OCTKey(**data)
def oct_bytes(E, v):
    v = z3.simplify(v)
    if kind_of_term(v) == "str": return encode_t(E, v.arg(0))
    s = utf8(pystr(v))
    return z3.If(Val.is_vstr(v), utf8(Val.s(v)), z3.If(Val.is_vbytes(v), Val.y(v), s))

def oct_dec(E, b):
    if z3.is_app(b) and b.decl().name() == "b64u":
        b64u_of(E, b.arg(0))
        return b.arg(0)
    return ub_dec(b)

def s_oct(E, a, k):
    d = kwd(E, k)
    v = getn(E.get(d, "k"))
    b = oct_bytes(E, v)
    num = z3.Or(Val.is_vint(v), Val.is_vbool(v), Val.is_vflt(v))
    E.fact(z3.Implies(num, is_ascii(pystr(v))))
    E.fact(z3.Implies(b == z3.StringVal(""), z3.And(ub_ok(b, z3.IntVal(0)), ub_dec(b) == z3.StringVal(""))))
    ok = z3.And(no_self(E, d), z3.Or(Val.is_vstr(v), Val.is_vbytes(v), num), ub_ok(b, z3.Length(b) % 4))
    E.may_raise([TypeError, binascii.Error], Not(ok))
    o = HObj(AJK.OCTKey)
    o.attrs["_secret"] = E.mky(oct_dec(E, b))
    return o
def same_oct(E, g, w):
    return And(isinstance(g, HObj) and g.cls is w.cls and "_secret" in g.attrs, E.same(g.attrs["_secret"], w.attrs["_secret"]))


# ---- RSAKey(**data)
def rsa_parts(E, d):
    """n, e, private?, the private integers and the condition for the constructor to succeed."""
    n, e, dd, p, q, dp, dq, qi = raw(E, d, "n", "e", "d", "p", "q", "dp", "dq", "qi")
    N, Ee, D = ki_val(n), ki_val(e), ki_val(dd)
    nz = lambda v: z3.And(z3.Not(Val.is_none(v)), ki_val(v) != 0)
    opt = lambda v: z3.Or(Val.is_none(v), ki_ok(v))
    both = z3.And(nz(p), nz(q))
    P, Q = z3.If(both, ki_val(p), rec_p(N, Ee, D)), z3.If(both, ki_val(q), rec_q(N, Ee, D))
    DP, DQ, QI = z3.If(nz(dp), ki_val(dp), crt_p(D, P)), z3.If(nz(dq), ki_val(dq), crt_q(D, Q)), z3.If(nz(qi), ki_val(qi), crt_i(P, Q))
    priv = ki_given(E, dd)
    g = dict(d=D, p=P, q=Q, dmp1=DP, dmq1=DQ, iqmp=QI)
    pub_ok = z3.And(no_self(E, d), ki_ok(n), ki_ok(e), rsa_pub_ok(N, Ee))
    priv_ok = z3.And(ki_ok(dd), *[opt(x) for x in (p, q, dp, dq, qi)], z3.Or(both, rec_ok(N, Ee, D)), z3.Or(nz(dp), P != 1), z3.Or(nz(dq), Q != 1), rsa_priv_facts(E, g, N, Ee))
    return N, Ee, priv, g, pub_ok, priv_ok

def s_rsa(E, a, k):
    d = kwd(E, k)
    N, Ee, priv, g, pub_ok, priv_ok = rsa_parts(E, d)
    E.may_raise(ERRS + [ZeroDivisionError], Not(z3.And(pub_ok, z3.Implies(priv, priv_ok))))
    pn = IObj("rsapubnum", e=Ee, n=N, attrs=dict(e=E.mki(Ee), n=E.mki(N)))
    o = HObj(AJK.RSAKey)
    o.attrs["_public"] = rsa_public(pn)
    o.attrs["_private"] = Lazy(lambda E: rsa_private(IObj("rsaprivnum", pub=pn, attrs={**{x: E.mki(t) for x, t in g.items()}, "public_numbers": pn}, **g)) if E.branch(priv) else None)
    return o

def same_num(E, g, w, kind, names):
    if not (isinstance(g, IObj) and g.kind == kind): return False
    return And(*[g.ghost[n] == w.ghost[n] for n in names])

def same_asym(fam, pubn, privn):
    def same(E, g, w):
        if not (isinstance(g, HObj) and g.cls is w.cls): return False
        gp, wp = g.attrs.get("_public"), w.attrs["_public"]
        if not (isinstance(gp, IObj) and gp.kind == fam + "pub"): return False
        fs = [same_num(E, gp.ghost["pub"], wp.ghost["pub"], fam + "pubnum", pubn)]
        if fam == "ec": fs.append(gp.ghost["pub"].ghost["curve"].name == wp.ghost["pub"].ghost["curve"].name)
        gv, wv = E.getattr(g, "_private") if "_private" in g.attrs else None, E.getattr(w, "_private")
        if wv is None or gv is None: return And(*fs, gv is None and wv is None)
        if not (isinstance(gv, IObj) and gv.kind == fam + "priv"): return False
        fs.append(same_num(E, gv.ghost["num"], wv.ghost["num"], fam + "privnum", privn))
        fs.append(same_num(E, gv.ghost["pub"], wv.ghost["pub"], fam + "pubnum", pubn))
        return And(*fs)
    return same


# ---- ECKey(**data)
CURVE = {"P-256": "secp256r1", "P-384": "secp384r1", "P-521": "secp521r1"}
def s_ec(E, a, k):
    d = kwd(E, k)
    x, y, dd = raw(E, d, "x", "y", "d")
    crv = getn(E.get(d, "crv"))
    for n in CURVE:
        if E.branch(crv == E.term(n)): break
    else:
        E.may_raise([X.InvalidKey, TypeError], z3.BoolVal(True))
        E.impossible()
    c = CURVE_BY_NAME[CURVE[n]]
    XX, Y, D = ki_val(x), ki_val(y), ki_val(dd)
    priv = ki_given(E, dd)
    pub_ok = z3.And(no_self(E, d), ki_ok(x), ki_ok(y), ec_ok(E, c, XX, Y))
    E.may_raise(ERRS, Not(z3.And(pub_ok, z3.Implies(priv, z3.And(ki_ok(dd), ec_ok(E, c, XX, Y, D))))))
    pn = IObj("ecpubnum", x=XX, y=Y, curve=c, attrs=dict(x=E.mki(XX), y=E.mki(Y), curve=c))
    o = HObj(AJK.ECKey)
    o.attrs["_public"] = ec_public(pn)
    o.attrs["_private"] = Lazy(lambda E: ec_private(IObj("ecprivnum", d=D, pub=pn, attrs=dict(private_value=E.mki(D), public_numbers=pn))) if E.branch(priv) else None)
    return o


def build():
    out = []
    def add(name, t, spec, args, pre=None, **kw):
        if t is not None: out.append(Contract(name, t, spec, args, pre, **kw))
    for nm, spec, same in (("OCTKey", s_oct, same_oct), ("RSAKey", s_rsa, same_asym("rsa", ("n", "e"), ("d", "p", "q", "dmp1", "dmq1", "iqmp"))), ("ECKey", s_ec, same_asym("ec", ("x", "y"), ("d",)))):
        t = C.find(AJK, nm)
        add("psion.jose.jwa.jwk." + nm, t, spec, a_kw, p_kw, covers=("returns", "raises"), same=same, call=(lambda t: lambda E, a, k: E.construct(t, a, k))(t), budget=150)
    return out
