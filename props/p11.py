from pv.prove import *
from pv.specs_jose import *
from pv.contracts_keysets import *

def sym_keys(E, name="keys"):
    l = E.arg(name, "list")
    return l, lid_of(l)

def item_ok(l, j):
    t = l_item(l, j)
    return z3.And(Val.is_vobj(t), is_jwk(Val.oid(t)))

def kid_at(l, j):
    return z3.Select(key_arr(Val.oid(l_item(l, j))), Val.vstr(z3.StringVal("kid")))

def rng(l, *js):
    return z3.And([z3.And(0 <= j, j < l_len(l)) for j in js])

def good(E, l):
    i, j = z3.Ints("gi gj")
    return z3.And(l_len(l) > 0, z3.ForAll([i], z3.Implies(rng(l, i), z3.And(item_ok(l, i), z3.Not(Val.is_absent(kid_at(l, i))), z3.Not(Val.is_none(kid_at(l, i))))), patterns=[l_item(l, i)]),
                  z3.ForAll([i, j], z3.Implies(z3.And(rng(l, i, j), i < j), kid_at(l, i) != kid_at(l, j)), patterns=[z3.MultiPattern(l_item(l, i), l_item(l, j))]))

def created(what):
    def run(E):
        opaque_keys(E)
        v, l = sym_keys(E)
        s = E.do(JsonWebKeySet, v)
        if not s.ok: return
        E.cover("created")
        i, j = z3.FreshConst(I, "i"), z3.FreshConst(I, "j")
        E.ensure("the list of keys is not empty", l_len(l) > 0)
        E.ensure("every element is a key", z3.Implies(rng(l, i), item_ok(l, i)))
        E.ensure("every key has an ID", z3.Implies(rng(l, i), z3.And(z3.Not(Val.is_absent(kid_at(l, i))), z3.Not(Val.is_none(kid_at(l, i))))))
        E.ensure("no two keys have the same ID", z3.Implies(z3.And(rng(l, i, j), i < j), kid_at(l, i) != kid_at(l, j)))
    return run

def create_bad(E):
    opaque_keys(E)
    v = E.arg("keys")
    E.assume(z3.Not(Val.is_vlist(v.t)))
    s = E.do(JsonWebKeySet, v)
    E.cover("asked")
    E.ensure("anything but a list is refused", not s.ok)

def text_ids(E, l):
    i = z3.Int("ti")
    E.assume(z3.ForAll([i], z3.Implies(rng(l, i), Val.is_vstr(kid_at(l, i))), patterns=[l_item(l, i)]))

def accept(E):
    opaque_keys(E)
    v, l = sym_keys(E)
    E.assume(good(E, l))
    text_ids(E, l)
    s = E.do(JsonWebKeySet, v)
    E.cover("asked")
    E.ensure(f"a list of keys with different IDs is accepted {s!r}", s.ok)

def a_set(E):
    opaque_keys(E)
    v, l = sym_keys(E)
    s = E.do(JsonWebKeySet, v)
    if not s.ok: raise PathEnd
    return s.v, l

def get(E):
    s, l = a_set(E)
    k = E.str_arg("kid")
    r = E.do(E.getattr(s, "get_key"), k)
    if not r.ok: return E.ensure("the lookup does not fail", False)
    j = z3.FreshConst(I, "j")
    if r.v is None:
        E.cover("none")
        return E.ensure("nothing is found only when no key has the ID", z3.Implies(rng(l, j), kid_at(l, j) != E.term(k)))
    E.cover("found")
    t = E.term(r.v)
    E.ensure("the key found has the ID", z3.Select(key_arr(Val.oid(t)), E.term("kid")) == E.term(k))
    E.ensure("the key found is of the set", l_has(l, t))

def dump(public):
    def run(E):
        s, l = a_set(E)
        r = E.do(E.getattr(s, "dump"), public) if public is not None else E.do(E.getattr(s, "dump"))
        p = public is not False
        j = z3.FreshConst(I, "j")
        if not r.ok:
            E.cover("refused")
            return E.ensure("the dump is given when every key can be dumped", z3.Exists([j], z3.And(rng(l, j), z3.Not(key_dumps(Val.oid(l_item(l, j)), p)))))
        E.cover("dumped")
        check_set_dump(E, r.v, l, p)
    return run

def check_set_dump(E, v, l, p):
    q = E.any_key()
    h = E.dict_of(v)
    E.ensure("the dump has the one member keys", (z3.Select(E.arr(h), q) != Val.absent) == (q == E.term("keys")))
    ks = E.getitem(v, "keys")
    n = E.M.seq_len(E, ks)
    E.ensure("the dump has an entry for each key", E.as_int(n) == l_len(l))
    j = z3.FreshConst(I, "j")
    E.assume(rng(l, j))
    x = E.getitem(ks, E.mki(j))
    E.ensure("each entry is the dump of the key in its place", E.term(x) == key_dump(Val.oid(l_item(l, j)), p))

def load(E):
    opaque_keys(E)
    b = E.arg("base", "obj")
    E.assume(is_jwk(Val.oid(b.t)))
    s0 = E.do(JsonWebKeySet, HList([b]))
    if not s0.ok: raise PathEnd
    d = E.dict_arg("keyset")
    s = E.do(E.getattr(s0.v, "load"), d)
    A = E.arr(E.dict_of(d))
    if not s.ok: return
    E.cover("loaded")
    q = E.any_key()
    E.ensure("the document has the one member keys", (z3.Select(A, q) != Val.absent) == (q == E.term("keys")))
    src = z3.Select(A, E.term("keys"))
    ks = E.getattr(s.v, "keys")
    n = E.as_int(E.M.seq_len(E, ks))
    if not E.branch(Val.is_vlist(src)): return E.ensure("keys is a list", False)
    l = Val.lid(src)
    E.ensure("there is a key for each entry", z3.And(n == l_len(l), n > 0))
    j = z3.FreshConst(I, "j")
    E.assume(rng(l, j))
    x = E.getitem(ks, E.mki(j))
    E.ensure("each key is the one its entry describes", z3.And(jwk_ok(l_item(l, j)), E.term(x) == Val.vobj(jwk_of(l_item(l, j)))))

def load_bad(E):
    opaque_keys(E)
    b = E.arg("base", "obj")
    E.assume(is_jwk(Val.oid(b.t)))
    s0 = E.do(JsonWebKeySet, HList([b]))
    if not s0.ok: raise PathEnd
    v = E.arg("keyset")
    E.assume(z3.Not(Val.is_vdict(v.t)))
    s = E.do(E.getattr(s0.v, "load"), v)
    E.cover("asked")
    E.ensure("anything but an object is refused", not s.ok)

def load_accept(E):
    opaque_keys(E)
    b = E.arg("base", "obj")
    E.assume(is_jwk(Val.oid(b.t)))
    s0 = E.do(JsonWebKeySet, HList([b]))
    if not s0.ok: raise PathEnd
    l = z3.Int("in_list")
    E.fact(l_len(l) > 0)
    d = HDict(layers=[("keys", Sym(Val.vlist(l)))])
    i, j = z3.Ints("gi gj")
    kid = lambda i: z3.Select(key_arr(jwk_of(l_item(l, i))), E.term("kid"))
    E.assume(z3.And(z3.ForAll([i], z3.Implies(rng(l, i), z3.And(Val.is_vdict(l_item(l, i)), jwk_ok(l_item(l, i)), Val.is_vstr(kid(i)))), patterns=[l_item(l, i)]),
             z3.ForAll([i, j], z3.Implies(z3.And(rng(l, i, j), i < j), kid(i) != kid(j)), patterns=[z3.MultiPattern(l_item(l, i), l_item(l, j))])))
    s = E.do(E.getattr(s0.v, "load"), d)
    E.cover("asked")
    E.ensure(f"a document of keys with different IDs is accepted, not {s!r}", s.ok)

def proofs():
    P = lambda n, f, c, w: Proof("C11." + n, f, c, w)
    return [P("created", created(None), ["created"], "creation from any list"), P("not-a-list", create_bad, ["asked"], "creation from anything else"), P("accepted", accept, ["asked"], "creation from any good list"),
            P("get_key", get, ["none", "found"], "lookup of any ID in any set"), P("dump.public", dump(True), ["dumped"], "public dump of any set"), P("dump.private", dump(False), ["dumped", "refused"], "private dump of any set"), P("dump.default", dump(None), ["dumped"], "default dump of any set"),
            P("load", load, ["loaded"], "loading any document"), P("load.not-an-object", load_bad, ["asked"], "loading anything else"), P("load.accepted", load_accept, ["asked"], "loading any good document")]
