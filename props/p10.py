from pv.prove import *
from pv.specs_jose import *
KP = {"oct": ("k",), "RSA": ("n", "e", "d", "p", "q", "dp", "dq", "qi"), "EC": ("crv", "x", "y", "d")}
PRIV = ("d", "p", "q", "dp", "dq", "qi")

def not_a_file(E, v):
    """v is not the name of a file that is there or is kept from us."""
    t = E.term(v)
    E.assume(z3.And(z3.Not(f_exists(t)), z3.Or([f_fault(t) == i for i, x in enumerate(OPEN_FAULTS) if x in ("nul", "long", FileNotFoundError, IsADirectoryError, NotADirectoryError)])))

def params(E, d, fam, crv, public):
    """[(name, formula of its value)] a dump must have."""
    m = material(E, d, fam)
    if fam == "oct": return [("k", lambda v: z3.And(Val.is_vstr(v), v == Val.vstr(b64u_of(E, m["secret"]))))]
    num = lambda x: lambda v: z3.And(Val.is_vstr(v), ki_ok(v), ki_val(v) == x)
    if fam == "RSA":
        out = [("n", num(m["n"])), ("e", num(m["e"]))]
        if not public: out += [(a, num(m[b])) for a, b in (("d", "d"), ("p", "p"), ("q", "q"), ("dp", "dmp1"), ("dq", "dmq1"), ("qi", "iqmp"))]
        return out
    out = [("crv", lambda v: v == E.term(crv)), ("x", num(m["x"])), ("y", num(m["y"]))]
    if not public: out.append(("d", num(m["d"])))
    return out

def check_dump(E, r, d, fam, crv, public):
    v = r
    E.ensure("the dump states the key's kty", E.get(v, "kty") == E.term(fam))
    for n, f in params(E, d, fam, crv, public): E.ensure(f"the dump has the key's {n}", f(E.get(v, n)))
    q = E.any_key()
    E.assume(z3.And(*[q != E.term(n) for n in KP[fam] + ("kty",)]))
    orig = E.arr(E.dict_of(d))
    inst(E, orig, q)
    o = z3.Select(orig, q)
    h = E.dict_of(v)
    inst(E, E.arr(h), q)
    if h.base is not None: inst(E, h.base, q)
    E.ensure("every other attribute survives unchanged", z3.Select(E.arr(h), q) == z3.If(Val.is_none(o), Val.absent, o))

def dump(fam, crv, public, part):
    def run(E):
        d, k = sym_key(E, fam, crv, None if fam == "oct" or public else True)
        if not k.ok: return
        r = E.do(E.getattr(k.v, "dump"), public)
        if not r.ok: return E.ensure("the dump is given", False)
        E.cover("dumped")
        if part == "holds": return check_dump(E, r.v, d, fam, crv, public)
        k2 = E.do(JsonWebKey, r.v)
        if not k2.ok: return E.ensure(f"a key can be built from the dump, not {k2!r}", False)
        E.cover("rebuilt")
        r2 = E.do(E.getattr(k2.v, "dump"), public)
        if not r2.ok: return E.ensure("the rebuilt key has the same dump", False)
        for n, f in params(E, d, fam, crv, public): E.ensure(f"the rebuilt key has the same {n}", f(E.get(r2.v, n)))
    return run

def export(fam, crv, public):
    def run(E):
        d, k = sym_key(E, fam, crv, None if fam == "oct" or public else True)
        if not k.ok: return
        e = E.do(E.getattr(k.v, "export"), public)
        if not e.ok: return E.ensure("the export is given", False)
        not_a_file(E, e.v)
        E.cover("exported")
        k2 = E.do(JsonWebKey.parse, e.v, fam, public)
        if not k2.ok: return E.ensure(f"the export can be parsed, not {k2!r}", False)
        E.cover("parsed")
        r = E.do(E.getattr(k2.v, "dump"), public)
        if not r.ok: return E.ensure("the parsed key is of the same kind", False)
        for n, f in params(E, d, fam, crv, public): E.ensure(f"the parsed key has the same {n}", f(E.get(r.v, n)))
    return run

def proofs():
    out = []
    for fam in FAMS:
        for crv in CURVE if fam == "EC" else [None]:
            for public in (False, True) if fam != "oct" else (False,):
                n = fam + (f".{crv}" if crv else "") + (".public" if public else ".private")
                out.append(Proof(f"C10.dump.{n}", dump(fam, crv, public, "holds"), ["dumped"], f"dump of any {n} key"))
                out.append(Proof(f"C10.rebuild.{n}", dump(fam, crv, public, "rebuild"), ["rebuilt"], f"dump then construction of any {n} key"))
                out.append(Proof(f"C10.export.{n}", export(fam, crv, public), ["parsed"], f"export then parse of any {n} key"))
    return out
