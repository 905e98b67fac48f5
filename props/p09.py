from pv.prove import *
from pv.specs_jose import *
OWN = {"RSA": ("d", "p", "q", "dp", "dq", "qi"), "EC": ("d",)}

def pub_pem(E, d, fam, crv):
    m = material(E, d, fam)
    return pem_rsa_pub(m["n"], m["e"]) if fam == "RSA" else pem_ec_pub(sval(CURVE[crv]), m["x"], m["y"])

def alone(fam, crv):
    def run(E):
        d, k = sym_key(E, fam, crv)
        if not k.ok: return
        a, kw = [([], {}), ([True], {}), ([], {"public": True})][E.choose(3)]
        r = E.do(E.getattr(k.v, "dump"), *a, **kw)
        if not r.ok: return E.ensure("a public dump is given", False)
        E.cover("dumped")
        for n in OWN[fam]: E.ensure(f"the public dump has no {n}", Val.is_absent(E.get(r.v, n)))
    return run

def export(fam, crv):
    def run(E):
        d, k = sym_key(E, fam, crv)
        if not k.ok: return
        e = E.do(E.getattr(k.v, "export"), True)
        if not e.ok: return E.ensure("a public export is given", False)
        E.cover("exported")
        E.ensure("the public export is the document of the public key", E.same(e.v, E.mky(pub_pem(E, d, fam, crv))))
    return run

def refused(fam, crv):
    """Private dump and export of a public key."""
    def run(E):
        d, k = sym_key(E, fam, crv, False)
        if not k.ok: return
        f, a = [("dump", [False]), ("export", [False]), ("export", [])][E.choose(3)]
        r = E.do(E.getattr(k.v, f), *a)
        E.cover("refused")
        E.ensure(f"a private {f} of a public key is refused", not r.ok)
    return run

def proofs():
    out = []
    for fam in ("RSA", "EC"):
        for crv in CURVE if fam == "EC" else [None]:
            n = fam + (f".{crv}" if crv else "")
            out.append(Proof(f"C09.dump.{n}", alone(fam, crv), ["dumped"], f"public dump of any {n} key"))
            out.append(Proof(f"C09.export.{n}", export(fam, crv), ["exported"], f"public export of any {n} key"))
            out.append(Proof(f"C09.refused.{n}", refused(fam, crv), ["refused"], f"private dump and export of a public {n} key"))
    from props import p11
    # a set lists the dumps of its keys (the contract of JsonWebKey.dump), public unless asked otherwise
    out.append(Proof("C09.set.default", p11.dump(None), ["dumped"], "the default dump of any key set is made of the public dumps of its keys"))
    out.append(Proof("C09.set.public", p11.dump(True), ["dumped"], "the public dump of any key set is made of the public dumps of its keys"))
    return out
