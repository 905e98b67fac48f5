"""Models of Python's built-in values: containers, strings, numbers, and the built-in functions.
Everything the interpreter cannot execute from source is given its meaning here (trusted; listed in the evidence)."""
import ast, builtins, copy, enum, inspect, types
from .engine import *
from .heap import *
from . import interp as _i
from .interp import _Brk, _Ret, SymKw, FnOf, NotApplicable, conc, conc_deep, to_native, isnum

KT = {"none": type(None), "bool": bool, "int": int, "flt": float, "str": str, "bytes": bytes, "list": list, "dict": dict, "obj": object}
SK = ("none", "bool", "int", "flt", "str", "bytes", "list", "dict", "obj")

ws_split = uf("ws_split", S, I)                # str.split()
splt = uf("splt", S, S, I)                     # split(sep), elements as raw strings
ssplt = uf("strlist", I, I)                    # list of vstr over a raw-string list
joinl = uf("joinl", S, I, S)
utf8 = uf("utf8", S, S)
utf8d = uf("utf8d", S, S)
is_utf8 = uf("is_utf8", S, B)
is_ascii = uf("is_ascii", S, B)
lower = uf("lower", S, S)
upper = uf("upper", S, S)
strip = uf("strip", S, S)
hexs = uf("hexs", S, S)
be = uf("be", I, I, S)
be_int = uf("be_int", S, I)
bitlen = uf("bitlen", I, I)
eqs = uf("eqs", I, S)                          # "=" * n
filt = uf("filt", ArrS, ArrS)                  # array without its None entries


class TypeOf:
    """type(x) of a value whose kind is not known."""
    def __init__(self, v): self.v = v


# ------------------------------------------------------------------ iteration
def elements(E, src):
    if isinstance(src, (tuple, list, frozenset, range)):
        return "concrete", list(src)
    if isinstance(src, (HList, HSet)):
        if src.coll is None:
            return "concrete", list(src.items)
        if src.items:
            raise Unsupported("mixed collection")
        return "sym", src.coll
    if isinstance(src, HDict):
        return dict_elements(E, src, "keys")
    if isinstance(src, HObj) and src.d is not None:
        return dict_elements(E, src.d, "keys")
    if isinstance(src, dict):
        return dict_elements(E, E.mirror(src), "keys")
    if isinstance(src, DictView):
        return dict_elements(E, src.d, src.what)
    if isinstance(src, (str,)):
        return "concrete", list(src)
    if isinstance(src, bytes):
        return "concrete", list(src)
    if isinstance(src, IObj) and "elements" in src.ghost:
        return src.ghost["elements"]
    if isinstance(src, (type(None), int, float, bool)) or isinstance(src, HObj):
        E.raise_(TypeError)
    if isinstance(src, Sym):
        k = E.need(src, ("list", "dict", "str", "bytes"))
        if k == "list":
            return "sym", list_coll(E, lid_of(src))
        if k == "dict":
            return dict_elements(E, E.dict_of(src), "keys")
        s = E.str_t(src)
        j = E.bound(I)
        c = Coll(j, z3.And(0 <= j, j < z3.Length(s)), [(True, (lambda v: E.wrap(Val.vstr(z3.SubString(s, v, 1)))) if k == "str" else (lambda v: E.wrap(Val.vint(byte_at(s, v)))))], length=z3.Length(s), src=("chars", s, k))
        return "sym", c
    raise Unsupported(f"iteration over {src!r}")

byte_at = uf("byte_at", S, I, I)

def lid_of(v):
    return v.t.arg(0) if kind_of_term(v.t) == "list" else Val.lid(v.t)

def list_coll(E, l):
    j = E.bound(I)
    E.fact(l_len(l) >= 0)
    return Coll(j, z3.And(0 <= j, j < l_len(l)), [(True, lambda v: list_item(E, l, v))], length=l_len(l), src=("list", l))

def list_item(E, l, v):
    t = l_item(l, v)
    E.fact(z3.Implies(z3.And(0 <= v, v < l_len(l)), z3.And(z3.Not(Val.is_absent(t)), l_has(l, t))))
    el_facts(E, l, t)
    return E.wrap(t)

def el_facts(E, l, t):
    """Element kinds of lists whose construction tells them."""
    k = E.list_kinds.get(l.get_id()) if hasattr(E, "list_kinds") else None
    nm = l.decl().name() if z3.is_app(l) else ""
    if nm == "ws_split":
        E.fact(z3.And(Val.is_vstr(t), Val.s(t) != z3.StringVal("")))
    elif nm == "strlist":
        E.fact(Val.is_vstr(t))
    elif nm == "byteslist":
        E.fact(Val.is_vbytes(t))
    elif k:
        E.fact(is_[k[0]](t))

def hashable_t(t): return z3.Not(z3.Or(Val.is_vdict(t), Val.is_vlist(t)))

def dict_elements(E, d, what):
    if d.concrete_keys():
        lv = d.live()
        if what == "keys": return "concrete", list(lv.keys())
        if what == "values": return "concrete", list(lv.values())
        return "concrete", list(lv.items())
    a = E.arr(d)
    k = E.bound(Val)
    sk = is_strkeys(E, d)
    def g(kk):
        f = z3.Select(a, kk) != Val.absent
        f = z3.And(f, z3.Not(Val.is_absent(kk)))
        return z3.And(f, Val.is_vstr(kk)) if sk else z3.And(f, hashable_t(kk))
    def pick(v):
        inst(E, a, v)
        if d.base is not None: inst(E, d.base, v)
        if what == "keys": return E.wrap(v)
        x = E.wrap(z3.Select(a, v))
        return x if what == "values" else (E.wrap(v), x)
    return "sym", Coll(k, g(k), [(True, pick)], src=("dict", d, what))

def is_strkeys(E, d):
    b = d.base
    if b is None:
        return all(isinstance(k, str) or E.kind(k) == "str" for k, _ in d.layers)
    return b.get_id() in E.strkeys and all(isinstance(k, str) or E.kind(k) == "str" for k, _ in d.layers)

def arr_strkeys(E, a):
    while z3.is_store(a):
        if kind_of_term(a.arg(1)) != "str": return False
        a = a.arg(0)
    return a.get_id() in E.strkeys or z3.is_K(a)

def mark_strkeys(E, arr):
    E.strkeys[arr.get_id()] = arr

def inst(E, a, k):
    f = E.insts.get(a.get_id())
    if f is not None:
        f[1](k)

def to_concrete_list(E, v):
    if isinstance(v, Gen):
        out = []
        E.iterate(v, lambda x: out.append(x))
        return out
    k, data = elements(E, v)
    if k != "concrete":
        raise Unsupported("symbolic sequence where a concrete one is needed")
    return data

def unpack(E, v, n, star):
    if isinstance(v, Gen):
        v = HList(to_concrete_list(E, v))
    if isinstance(v, (HList, tuple, list, str, bytes)) and not (isinstance(v, HList) and v.coll is not None):
        items = list(v.items if isinstance(v, HList) else v)
        if star is None:
            if len(items) != n: E.raise_(ValueError, "unpack")
            return items
        if len(items) < n - 1: E.raise_(ValueError, "unpack")
        m = len(items) - (n - 1)
        return items[:star] + [HList(items[star:star + m])] + items[star + m:]
    if isinstance(v, HList):
        v = Sym(E.term(v))
    if isinstance(v, Sym):
        E.need(v, ("list",))
        if star is not None: raise Unsupported("starred unpacking of a symbolic list")
        l = lid_of(v)
        split_facts(E, l, n)
        if not E.branch(l_len(l) == n):
            E.raise_(ValueError, "unpack")
        return [list_item(E, l, z3.IntVal(i)) for i in range(n)]
    if isinstance(v, (HDict, DictView)):
        items = to_concrete_list(E, v)
        if len(items) != n: E.raise_(ValueError, "unpack")
        return items
    E.raise_(TypeError, "cannot unpack")


# ------------------------------------------------------------------ dictionaries
def hashable(E, k):
    if isinstance(k, Sym):
        kd = E.kind(k)
        if kd in ("list", "dict"): E.raise_(TypeError, "unhashable")
        if kd is None and E.branch(z3.Or(Val.is_vlist(k.t), Val.is_vdict(k.t))):
            E.raise_(TypeError, "unhashable")
    elif isinstance(k, (HList, HDict, HSet)) or isinstance(k, HObj) and k.d is not None:
        E.raise_(TypeError, "unhashable")
    return k

def dict_lookup(E, d, k):
    """Value at k, or MISSING. Forks where that depends on symbolic data."""
    hashable(E, k)
    for lk, v in reversed(d.layers):
        e = E.eq(k, lk)
        if e is False: continue
        if e is True or E.branch(e): return v
    if d.base is None:
        return MISSING
    kt = E.term(k)
    inst(E, d.base, kt)
    t = z3.simplify(z3.Select(d.base, kt))
    E.lookups[(d.base.get_id(), kt.get_id())] = (d.base, kt)
    some_fact(E, d.base, t)
    if text_base(E, d.base): return text_at(E, t)
    if E.branch(Val.is_absent(t)):
        return MISSING
    return E.wrap(t)

def text_base(E, a):
    """A dictionary all of whose values are non-empty text (form data)."""
    while z3.is_store(a):
        if kind_of_term(a.arg(2)) not in ("str", "absent"): return False
        a = a.arg(0)
    return a.get_id() in E.textvals

def text_at(E, t):
    if kind_of_term(t) == "absent" or E.branch(Val.is_absent(t)): return MISSING
    s = t.arg(0) if kind_of_term(t) == "str" else Val.s(t)
    E.fact(z3.And(Val.is_vstr(t), s != z3.StringVal("")))
    return Sym(Val.vstr(s))

def some_fact(E, base, t):
    if z3.is_app(base) and base.decl().name() == "d_arr":
        E.fact(z3.Implies(z3.Not(Val.is_absent(t)), d_some(base.arg(0))))

def dict_get(E, d, k, default=None):
    if default is None and conc(k):
        for lk, v in reversed(d.layers):
            e = E.eq(k, lk)
            if e is True:
                return None if v is MISSING else v
            if e is not False: break
        else:
            if d.base is None: return None
            kt = E.term(k)
            inst(E, d.base, kt)
            t = z3.simplify(z3.Select(d.base, kt))
            E.lookups[(d.base.get_id(), kt.get_id())] = (d.base, kt)
            some_fact(E, d.base, t)
            if text_base(E, d.base):
                v = text_at(E, t)
                return None if v is MISSING else v
            if kind_of_term(t) or t.get_id() in E.kinds:
                v = E.wrap(t)
                return None if v is MISSING or E.kind(v) == "absent" else v
            return Sym(getn(t))
    v = dict_lookup(E, d, k)
    return default if v is MISSING else v

def getn(t):
    return z3.If(Val.is_absent(t), Val.none, t)

def dict_has(E, d, k):
    hashable(E, k)
    if d.base is None:
        f = False
    else:
        kt = E.term(k)
        inst(E, d.base, kt)
        t = z3.simplify(z3.Select(d.base, kt))
        E.lookups[(d.base.get_id(), kt.get_id())] = (d.base, kt)
        some_fact(E, d.base, t)
        f = z3.simplify(z3.Not(Val.is_absent(t)))
        if z3.is_true(f): f = True
        elif z3.is_false(f): f = False
    for lk, v in d.layers:
        e = E.eq(k, lk)
        pv = v is not MISSING
        if e is True: f = pv
        elif e is False: pass
        else: f = z3.If(e, z3.BoolVal(pv), zb(f))
    return f

def filt_arr(E, a):
    r = filt(a)
    if r.get_id() not in E.insts:
        def ins(k):
            E.fact(z3.Select(r, k) == z3.If(Val.is_none(z3.Select(a, k)), Val.absent, z3.Select(a, k)))
            inst(E, a, k)
        E.insts[r.get_id()] = (r, ins)
        if arr_strkeys(E, a): mark_strkeys(E, r)
        k = E.bound(Val)
        n = E.named(r)
        E.fact(z3.ForAll([k], z3.Select(n, k) == z3.If(Val.is_none(z3.Select(a, k)), Val.absent, z3.Select(a, k)), patterns=[z3.Select(n, k)]))
        E.fact(filt(r) == r)
    return r

def dict_from_coll(E, c):
    """Dictionary {key(v): value(v)} over a collection."""
    v = c.var
    if len(c.alts) == 1 and c.src is None and z3.is_expr(c.alts[0][1][0]) and c.alts[0][1][0].eq(v):
        cond, (kt, vt) = c.alts[0]
        g = z3.And(c.guard, cond)
        # recognise the null filter so that equal filters are equal arrays
        sel = vt
        if z3.is_select(sel) and sel.arg(1).eq(v):
            a = sel.arg(0)
            s = z3.Solver(); s.set("timeout", 1000)
            s.add(z3.Not(g == z3.And(z3.Not(Val.is_absent(z3.Select(a, v))), z3.Not(Val.is_none(z3.Select(a, v))), Val.is_vstr(v) if arr_strkeys(E, a) else hashable_t(v), z3.Not(Val.is_absent(v)))))
            if not has_quant(g) and s.check() == z3.unsat:
                return HDict(base=filt_arr(E, a))
        A = E.fresh("comp", ArrS)
        def f(k):
            return z3.Select(A, k) == z3.If(z3.substitute(g, (v, k)), z3.substitute(vt, (v, k)), Val.absent)
        q = E.bound(Val)
        E.insts[A.get_id()] = (A, lambda k: E.fact(f(k)))
        def text_only(f):
            return f.eq(Val.is_vstr(v)) or z3.is_and(f) and any(text_only(x) for x in f.children())
        if text_only(g): mark_strkeys(E, A)
        E.fact(z3.ForAll([q], f(q), patterns=[z3.Select(A, q)]))
        return HDict(base=A)
    A = E.fresh("comp", ArrS)
    q, y = E.bound(v.sort()), E.bound(Val)
    wit = z3.Function(f"wit!{E.counter}", Val, v.sort())
    for cond, (kt, vt) in c.alts:
        sub = lambda f: z3.substitute(f, (v, q))
        E.fact(z3.ForAll([q], z3.Implies(z3.And(sub(c.guard), sub(cond)), z3.Not(Val.is_absent(z3.Select(A, sub(kt)))))))
    w = wit(y)
    E.fact(z3.ForAll([y], z3.Implies(z3.Not(Val.is_absent(z3.Select(A, y))), z3.Or([z3.substitute(z3.And(c.guard, cond, kt == y, vt == z3.Select(A, y)), (v, w)) for cond, (kt, vt) in c.alts])), patterns=[z3.Select(A, y)]))
    def ins(k):
        E.fact(z3.Implies(z3.Not(Val.is_absent(z3.Select(A, k))), z3.Or([z3.substitute(z3.And(c.guard, cond, kt == k, vt == z3.Select(A, k)), (v, wit(k))) for cond, (kt, vt) in c.alts])))
    E.insts[A.get_id()] = (A, ins)
    if all(kind_of_term(kt) == "str" for _, (kt, _) in c.alts): mark_strkeys(E, A)
    return HDict(base=A)

def as_dict(E, v):
    """HDict of anything dict() / update() accepts, or raise."""
    if isinstance(v, (HDict,)): return v
    if isinstance(v, HObj) and v.d is not None: return v.d
    if isinstance(v, dict): return E.mirror(v)
    if isinstance(v, IObj) and v.kind == "qsl":
        return E.dict_of(v.ghost["dict"])
    if isinstance(v, Sym):
        k = E.kind(v)
        if k is None:
            if E.branch(Val.is_vdict(v.t)): k = "dict"
        if k == "dict": return E.dict_of(v)
        E.raise_(TypeError)
    if isinstance(v, (HList, tuple, Gen)):
        if isinstance(v, HList) and v.coll is not None:
            raise Unsupported("dict of a symbolic list")
        out = HDict()
        for p in to_concrete_list(E, v):
            k, x = unpack(E, p, 2, None)
            out.layers.append((k, x))
        return out
    if isinstance(v, DictView) and v.what == "items": return v.d
    E.raise_(TypeError)

def dict_update(E, d, other):
    o = as_dict(E, other)
    if o.concrete_keys():
        for k, v in o.live().items():
            E.d_write(d, k, v)
        return
    if d.base is None and not d.layers:
        E.d_replace(d, o.base, o.layers)
        return
    if o.base is None:
        for k, v in o.layers:
            if v is MISSING: raise Unsupported("update with deleted entries")
            E.d_write(d, k, v)
        return
    a0, b = E.arr(d), E.arr(o)
    sk = is_strkeys(E, d) and is_strkeys(E, o)
    dold, oold = HDict(d.base, d.layers), HDict(o.base, o.layers)
    A = merge_arr(E, a0, b, (dold.base, oold.base))
    if sk: mark_strkeys(E, A)
    if text_base(E, a0) and text_base(E, b): E.textvals[A.get_id()] = A
    w = E.without.get(b.get_id())
    keep = []
    if w and all(conc(k) for k, _ in dold.layers):
        for k in w[1]:
            hit = [v for x, v in dold.layers if x == k]
            if hit or dold.base is None: keep.append((k, hit[-1] if hit else MISSING))
    E.d_replace(d, A, keep)

dmerge = uf("dmerge", ArrS, ArrS, ArrS)

def merge_arr(E, a0, b, bases=()):
    a0, b = z3.simplify(a0), z3.simplify(b)
    A = dmerge(a0, b)
    def f(k): return z3.Select(A, k) == z3.If(Val.is_absent(z3.Select(b, k)), z3.Select(a0, k), z3.Select(b, k))
    if A.get_id() not in E.insts:
        def ins(k):
            E.fact(z3.simplify(f(k)))
            for x in list(bases) + [a0, b]:
                if x is not None: inst(E, x, k)
        E.insts[A.get_id()] = (A, ins)
        q = E.bound(Val)
        n = E.named(A)
        E.fact(z3.ForAll([q], z3.Select(n, q) == z3.If(Val.is_absent(z3.Select(b, q)), z3.Select(a0, q), z3.Select(b, q)), patterns=[z3.Select(n, q)]))
    return A

def dict_merge(E, extra, kw, d):
    out = HDict()
    if extra is not None: dict_update(E, out, extra)
    for k, v in kw.items(): E.d_write(out, k, v)
    dict_update(E, out, d)
    return out

def only_keys(E, d, names, fname):
    """A call **d to a function without **kwargs: any other key is a TypeError."""
    if d.concrete_keys():
        if any(k not in names for k in d.live()): E.raise_(TypeError, "unexpected keyword")
        return
    a = E.arr(d)
    q = E.bound(Val)
    if not E.branch(z3.ForAll([q], z3.Implies(z3.Not(Val.is_absent(z3.Select(a, q))), z3.Or([q == E.term(n) for n in names])))):
        E.raise_(TypeError, "unexpected keyword")

def kwdict(E, kw):
    if isinstance(kw, SymKw):
        d = HDict(kw.d.base, kw.d.layers)
        for k, v in kw.kw.items(): d.layers.append((k, v))
        return d
    return HDict(layers=list(kw.items()))

def delitem(E, o, k):
    if isinstance(o, HObj) and o.d is not None: o = o.d
    if isinstance(o, HDict):
        if dict_lookup(E, o, k) is MISSING: E.raise_(KeyError, k)
        E.d_write(o, k, MISSING)
        return
    raise Unsupported("del item")


# ------------------------------------------------------------------ lists and sets
def list_append(E, l, v):
    if l.coll is not None:
        raise Unsupported("append to a symbolic list")
    E.l_set(l, l.items + [v], None, "append", v)

def list_extend(E, l, other):
    for v in to_concrete_list(E, other):
        list_append(E, l, v)

def set_add(E, s, v):
    hashable(E, v)
    if s.coll is not None: raise Unsupported("add to a symbolic set")
    if E.binders or not any(E.eq(v, x) is True for x in s.items):
        for x in s.items:
            e = E.eq(v, x)
            if e is True: 
                E.l_set(s, s.items, None, "add", v); return
            if e is not False and not E.binders and E.branch(e):
                return
        E.l_set(s, s.items + [v], None, "add", v)

def make_set(E, items):
    s = HSet()
    for v in items:
        hashable(E, v)
        if not any(E.eq(v, x) is True for x in s.items):
            s.items.append(v)
    return s

def coll_of(E, v):
    """Coll or list of items of a collection value."""
    if isinstance(v, DictView) or isinstance(v, (HDict, Sym, tuple, list, HList, HSet, frozenset)):
        return elements(E, v)
    if isinstance(v, Gen):
        out = HList()
        E.iterate(v, lambda x: list_append(E, out, x))
        return elements(E, out)
    raise Unsupported(f"collection {v!r}")

def alt_term(E, c, val, v):
    if callable(val):
        return E.term(val(v))
    return z3.substitute(val, (c.var, v))

def exists_in(E, c, pred):
    """Formula: some element satisfies pred(term)."""
    q = E.bound(c.var.sort())
    fs = []
    with Quiet(E, q) as qq:
        for cond, val in c.alts:
            t = alt_term(E, c, val, q)
            fs.append(z3.And(zb(c.sub(cond, q) if cond is not True else True), zb(pred(t))))
    return z3.Exists([q], z3.And(c.sub(c.guard, q), qq.facts(), z3.Or(fs)))

class Quiet:
    """Collect the facts emitted while building a term under a bound variable (they mention it)."""
    def __init__(self, E, q): self.E, self.q, self.fs = E, q, []
    def __enter__(self):
        self.old = self.E.__dict__.get("fact")
        self.E.fact = self.fs.append
        return self
    def __exit__(self, *a):
        if self.old is None: del self.E.fact
        else: self.E.fact = self.old
        q = self.q
        keep = []
        for f in self.fs:
            if isinstance(f, bool): continue
            if mentions(f, q): keep.append(f)
            else: self.E.fact(f)
        self.keep = keep
        return False
    def facts(self):
        return z3.BoolVal(True)
    def side(self):
        return z3.And(self.keep) if self.keep else z3.BoolVal(True)

def mentions(f, q):
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(q): return True
        if z3.is_quantifier(x): todo.append(x.body())
        else: todo.extend(x.children())
    return False

def forall_in(E, c, pred):
    q = E.bound(c.var.sort())
    fs = []
    with Quiet(E, q):
        for cond, val in c.alts:
            t = alt_term(E, c, val, q)
            fs.append(z3.Implies(zb(c.sub(cond, q) if cond is not True else True), zb(pred(t))))
    return z3.ForAll([q], z3.Implies(c.sub(c.guard, q), z3.And(fs)))

def coll_nonempty(E, c):
    if c.length is not None: return c.length > 0
    return exists_in(E, c, lambda t: True)

def has_term(E, v, t):
    """Formula: collection v contains term t."""
    if isinstance(v, Sym):
        k = E.need(v, ("list", "dict", "str"))
        if k == "list": return l_has(lid_of(v), t)
    if isinstance(v, (HDict, DictView)) or isinstance(v, Sym):
        d = v.d if isinstance(v, DictView) else E.dict_of(v)
        return zb(dict_has(E, d, E.wrap(t)))
    k, data = coll_of(E, v)
    if k == "concrete":
        return z3.Or([t == E.term(x) for x in data] or [z3.BoolVal(False)])
    if data.src and data.src[0] == "list": return l_has(data.src[1], t)
    return exists_in(E, data, lambda x: x == t)

def subset(E, a, b):
    k, data = coll_of(E, a)
    if k == "concrete":
        return And(*[z3.simplify(zb(has_term(E, b, E.term(x)))) for x in data])
    if data.src and data.src[0] == "list":
        q = E.bound(Val)
        l = data.src[1]
        return z3.ForAll([q], z3.Implies(l_has(l, q), has_term(E, b, q)), patterns=[l_has(l, q)])
    return forall_in(E, data, lambda t: has_term(E, b, t))

def keys_are(E, d, items):
    """The keys of the dictionary are exactly these."""
    if d.concrete_keys():
        return set_eq(E, make_set(E, list(d.live())), make_set(E, list(items)))
    a, q = E.arr(d), E.bound(Val)
    ts = [E.term(x) for x in items]
    n = E.named(a)
    return z3.And(*[z3.Not(Val.is_absent(z3.Select(a, t))) for t in ts], z3.ForAll([q], z3.Implies(z3.And(z3.Not(Val.is_absent(q)), z3.Not(Val.is_absent(z3.Select(n, q)))), z3.Or([q == t for t in ts] or [z3.BoolVal(False)])), patterns=[z3.Select(n, q)]))

def set_eq(E, a, b):
    if not (isinstance(a, (HSet, frozenset)) and isinstance(b, (HSet, frozenset))): return False
    return And(subset(E, a, b), subset(E, b, a))

def set_compare(E, op, a, b):
    if isinstance(op, ast.LtE): return subset(E, a, b)
    if isinstance(op, ast.GtE): return subset(E, b, a)
    if isinstance(op, ast.Lt): return And(subset(E, a, b), Not(subset(E, b, a)))
    return And(subset(E, b, a), Not(subset(E, a, b)))

def derived_list(E, member, kind=None, lo=None):
    """A fresh list whose members are exactly those satisfying member(term)."""
    l = E.fresh("lst", I)
    q = E.bound(Val)
    E.fact(l_len(l) >= 0)
    E.fact(z3.ForAll([q], l_has(l, q) == zb(member(q)), patterns=[l_has(l, q)]))
    j = E.bound(I)
    E.fact(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < l_len(l)), l_has(l, l_item(l, j))), patterns=[l_item(l, j)]))
    E.fact(z3.ForAll([q], z3.Implies(l_has(l, q), z3.And(0 <= l_idx(l, q), l_idx(l, q) < l_len(l), l_item(l, l_idx(l, q)) == q)), patterns=[l_has(l, q)]))
    return Sym(Val.vlist(l))

def snapshot(E, v):
    """Sym list for a symbolic list/set whose order does not matter or is unknown."""
    c = v.coll
    if c.src and c.src[0] == "list" and isinstance(v, HList): return Sym(Val.vlist(c.src[1]))
    return derived_list(E, lambda t: has_term(E, v, t))

def set_op(E, op, a, b):
    if conc_items(a) and conc_items(b):
        A, Bb = to_concrete_list(E, a), to_concrete_list(E, b)
        inb = lambda x, L: any(E.branch(E.eq(x, y)) for y in L)
        if op == "and": return make_set(E, [x for x in A if inb(x, Bb)])
        if op == "or": return make_set(E, A + [x for x in Bb if not inb(x, A)])
        if op == "sub": return make_set(E, [x for x in A if not inb(x, Bb)])
    if op == "and": f = lambda t: z3.And(has_term(E, a, t), has_term(E, b, t))
    elif op == "or": f = lambda t: z3.Or(has_term(E, a, t), has_term(E, b, t))
    elif op == "sub": f = lambda t: z3.And(has_term(E, a, t), z3.Not(has_term(E, b, t)))
    else: raise Unsupported("set operator")
    s = derived_list(E, f)
    return HSet(coll=list_coll(E, lid_of(s)))

def conc_items(v):
    return isinstance(v, (tuple, list, frozenset)) or isinstance(v, (HList, HSet)) and v.coll is None

def seq_len(E, v):
    if isinstance(v, (str, bytes, tuple, list, dict, frozenset, range)): return len(v)
    if isinstance(v, HObj) and v.d is not None: v = v.d
    if isinstance(v, DictView): v = v.d
    if isinstance(v, HDict):
        if v.concrete_keys(): return len(v.live())
        d = E.fresh("dlen", I)
        E.fact(z3.And(d >= 0, (d > 0) == zb(E.truthy(v))))
        a, w, w2, q = E.arr(v), E.fresh("akey", Val), E.fresh("akey", Val), E.bound(Val)
        has = lambda k: z3.And(z3.Not(Val.is_absent(k)), z3.Not(Val.is_absent(z3.Select(a, k))))
        n = E.named(a)
        E.fact(z3.And(z3.Implies(d > 0, has(w)), z3.Implies(d > 1, z3.And(has(w2), w != w2)), z3.Implies(d == 1, z3.ForAll([q], z3.Implies(has(q), q == w), patterns=[z3.Select(n, q)]))))
        for k in (w, w2): inst(E, a, k)
        return E.mki(d)
    if isinstance(v, (HList, HSet)):
        if v.coll is None:
            if isinstance(v, HSet):
                # equal elements collapse
                n = []
                for x in v.items:
                    if not any(E.branch(E.eq(x, y)) for y in n): n.append(x)
                return len(n)
            return len(v.items)
        if isinstance(v, HList):
            if v.coll.length is not None: return E.mki(v.coll.length)
            d = E.fresh("flen", I)
            E.fact(z3.And(d >= 0))
            E.fact((d > 0) == zb(coll_nonempty(E, v.coll)))
            return E.mki(d)
        c = v.coll
        if c.length is not None and c.var.sort() == I:
            d = E.fresh("card", I)
            E.fact(z3.And(0 <= d, d <= c.length))
            i, j = E.bound(I), E.bound(I)
            with Quiet(E, i):
                ti = [(zb(c.sub(cd, i) if cd is not True else True), alt_term(E, c, vl, i)) for cd, vl in c.alts]
            with Quiet(E, j):
                tj = [(zb(c.sub(cd, j) if cd is not True else True), alt_term(E, c, vl, j)) for cd, vl in c.alts]
            E.fact((d == c.length) == z3.ForAll([i, j], z3.Implies(z3.And(c.sub(c.guard, i), c.sub(c.guard, j), i < j), z3.And([z3.Implies(z3.And(ci, cj), x != y) for ci, x in ti for cj, y in tj]))))
            return E.mki(d)
        raise Unsupported("len of a symbolic set")
    if isinstance(v, Sym):
        k = E.need(v, ("str", "bytes", "list", "dict"))
        if k in ("str", "bytes"): return E.mki(str_len(E, E.str_t(v)))
        if k == "list":
            E.fact(l_len(lid_of(v)) >= 0)
            return E.mki(l_len(lid_of(v)))
        return seq_len(E, E.dict_of(v))
    E.raise_(TypeError)

def str_len(E, s):
    s = z3.simplify(s)
    if z3.is_string_value(s): return z3.IntVal(len(z3str(s)))
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return z3.Sum([str_len(E, c) for c in s.children()])
    f = LEN_FACTS.get(s.decl().name()) if z3.is_app(s) else None
    if f: f(E, s)
    return z3.Length(s)

LEN_FACTS = {}
LEN_FACTS["eqs"] = lambda E, s: E.fact(z3.Length(s) == z3.If(s.arg(0) > 0, s.arg(0), 0))
LEN_FACTS["be"] = lambda E, s: E.fact(z3.Implies(s.arg(1) >= 0, z3.Length(s) == s.arg(1)))


# ------------------------------------------------------------------ membership
def contains(E, c, x):
    if isinstance(c, HObj) and c.d is not None: c = c.d
    if isinstance(c, HObj):
        for k in c.cls.__mro__:
            if "__contains__" in k.__dict__: return E.truthy(E.call_fn(k.__dict__["__contains__"], [c, x], {}, k))
        E.raise_(TypeError)
    if isinstance(c, dict): c = E.mirror(c)
    if isinstance(c, HDict): return dict_has(E, c, x)
    if isinstance(c, DictView):
        if c.what == "keys": return dict_has(E, c.d, x)
        return Or(*[E.eq(x, y) for y in to_concrete_list(E, c)])
    if isinstance(c, (str, bytes)) and isinstance(x, (str, bytes)):
        if type(c) is not type(x): E.raise_(TypeError)
        return x in c
    if isinstance(c, (str, bytes)) or isinstance(c, Sym) and E.kind(c) in ("str", "bytes"):
        k = E.kind(c)
        if k == "bytes" and E.kind(x) == "int": raise Unsupported("int in bytes")
        E.need(x, (k,))
        return str_contains(E, E.str_t(c), E.str_t(x))
    if isinstance(c, (tuple, list, frozenset)) or isinstance(c, (HList, HSet)) and c.coll is None:
        if isinstance(c, (HSet, frozenset)): hashable(E, x)
        return Or(*[E.eq(x, y) for y in (c.items if isinstance(c, (HList, HSet)) else sorted(c, key=repr) if isinstance(c, frozenset) else c)])
    if isinstance(c, (HList, HSet)):
        return has_term(E, c, E.term(x))
    if isinstance(c, Sym):
        k = E.need(c, ("list", "dict", "str", "bytes"))
        if k == "list": return l_has(lid_of(c), E.term(x))
        if k == "dict": return dict_has(E, E.dict_of(c), x)
        return contains(E, c, x)
    if isinstance(c, Gen):
        try:
            E.iterate(c, lambda v: _brk_if(E, E.eq(v, x)))
        except _Brk:
            return True
        return False
    if isinstance(c, type) and issubclass(c, enum.Enum) or isinstance(c, range):
        if conc(x): return x in c
    if c is None or isinstance(c, (int, float)): E.raise_(TypeError)
    if isinstance(c, IObj): return iface_contains(E, c, x)
    raise Unsupported(f"membership in {c!r}")

def iface_contains(E, c, x):
    raise Unsupported("membership in an object")

def _brk_if(E, f):
    if E.branch(f): raise _Brk

def str_contains(E, s, x):
    s, x = z3.simplify(s), z3.simplify(x)
    r = known_contains(E, s, x)
    if r is not None: return r
    return z3.Contains(s, x)

def known_contains(E, s, x):
    """Decide containment of short literals structurally where the term's alphabet is known."""
    if z3.is_string_value(s) and z3.is_string_value(x): return z3str(x) in z3str(s)
    if z3.is_string_value(x) and z3.is_app(s):
        lit = z3str(x)
        nm = s.decl().name()
        if s.decl().kind() == z3.Z3_OP_SEQ_CONCAT and len(lit) == 1:
            rs = [known_contains(E, c, x) for c in s.children()]
            if any(r is True for r in rs): return True
            if all(r is False for r in rs): return False
            return None
        al = ALPHABET.get(nm)
        if al is not None and lit and any(ch not in al for ch in lit): return False
        cf = CONTAINS_FACTS.get(nm)
        if cf: return cf(E, s, lit)
    return None

URLSAFE = frozenset("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_")
ALPHABET = {"b64u": URLSAFE, "b64s": frozenset("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/="), "hexs": frozenset("0123456789abcdef"), "eqs": frozenset("=")}
CONTAINS_FACTS = {}


# ------------------------------------------------------------------ strings
def is_strlike(E, v): return E.kind(v) in ("str", "bytes")

def to_str(E, v):
    """str(v) / f-string field."""
    k = E.kind(v)
    if isinstance(v, str): return str.__str__(v) if type(v) is not str else v
    if k == "str": return v
    if isinstance(v, Sym):
        if k == "int":
            return E.mks(z3.IntToStr(Val.i(v.t))) if False else Sym(Val.vstr(pystr(v.t)))
        return Sym(Val.vstr(pystr(v.t)))
    if conc(v):
        try:
            return str(v)
        except Exception as e:
            raise PyRaise(e)
    if isinstance(v, HObj) and issubclass(v.cls, BaseException):
        return Sym(Val.vstr(E.fresh("excstr", S)))
    return Sym(Val.vstr(E.fresh("str", S)))

def format_value(E, v, spec, conv):
    if conc(v) and conc(spec):
        return format(repr(v) if conv == "r" else v, spec)
    if not spec and conv is None: return to_str(E, v)
    if spec in ("02x",) and isinstance(v, Sym):
        return Sym(Val.vstr(uf("hex2", I, S)(E.as_int(v))))
    return Sym(Val.vstr(E.fresh("fmt", S)))

def str_concat(E, a, b):
    if isinstance(a, str) and isinstance(b, str): return a + b
    if isinstance(a, bytes) and isinstance(b, bytes): return a + b
    k = E.kind(a)
    ta, tb = E.str_t(a), E.str_t(b)
    if a == "" or a == b"": return b
    if b == "" or b == b"": return a
    t = cat(ta, tb)
    return E.mks(t) if k == "str" else E.mky(t)

def cat(*ts):
    out = []
    for t in ts:
        t = z3.simplify(t)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT: out.extend(t.children())
        else: out.append(t)
    res = []
    for t in out:
        if z3.is_string_value(t):
            if z3str(t) == "": continue
            if res and z3.is_string_value(res[-1]):
                res[-1] = sval(z3str(res[-1]) + z3str(t)); continue
        res.append(t)
    if not res: return z3.StringVal("")
    if len(res) == 1: return res[0]
    return z3.Concat(*res)

def parts(t):
    return flat(z3.simplify(t))

def flat(t):
    if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT): return [t]
    return [x for c in t.children() for x in flat(c)]

def ascii_known(t):
    t = z3.simplify(t)
    if z3.is_string_value(t): return all(ord(c) < 128 for c in z3str(t))
    if z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT: return all(ascii_known(c) for c in t.children())
        return t.decl().name() in ASCII_UF
    return False

ASCII_UF = {"b64u", "b64s", "hexs", "eqs", "qenc", "rchar", "qp", "rtoken"}

def encode_t(E, t):
    """UTF-8 bytes of a text term."""
    out = []
    for p in parts(t):
        if z3.is_string_value(p): out.append(bval(z3str(p).encode("utf-8", "surrogatepass")))
        elif ascii_known(p): out.append(p)
        elif z3.is_app(p) and p.decl().name() == "utf8d":
            u = utf8(p)
            E.fact(z3.Implies(is_utf8(p.arg(0)), u == p.arg(0)))
            utf8_facts(E, p)
            out.append(u)
        else:
            utf8_facts(E, p)
            out.append(utf8(p))
    return cat(*out)

def utf8_facts(E, p):
    u = utf8(p)
    E.fact(z3.And(is_utf8(u), utf8d(u) == p, (u == z3.StringVal("")) == (p == z3.StringVal("")), z3.Implies(is_ascii(p), u == p)))

def valid_utf8(E, t):
    """Formula: bytes term t is valid UTF-8 (True when known)."""
    t = z3.simplify(t)
    if ascii_known(t): return True
    if z3.is_string_value(t):
        try: z3str(t).encode("latin-1").decode("utf-8"); return True
        except UnicodeDecodeError: return False
    if all(ascii_known(p) or z3.is_app(p) and p.decl().name() == "utf8" or z3.is_string_value(p) and valid_utf8(E, p) is True for p in parts(t)): return True
    return is_utf8(t)

def decode_t(E, t):
    out = []
    ps = parts(t)
    for p in ps:
        if z3.is_string_value(p): out.append(sval(z3str(p).encode("latin-1").decode("utf-8")))
        elif ascii_known(p): out.append(p)
        elif z3.is_app(p) and p.decl().name() == "utf8": out.append(p.arg(0))
        elif len(ps) == 1:
            d = utf8d(p)
            E.fact(z3.Implies(is_utf8(p), z3.And(utf8(d) == p, (d == z3.StringVal("")) == (p == z3.StringVal("")))))
            out.append(d)
        else:
            w = z3.simplify(t)
            d = utf8d(w)
            E.fact(z3.Implies(is_utf8(w), utf8(d) == w))
            return d
    return cat(*out)

def codec(E, name):
    if name is None: return "utf-8"
    if not isinstance(name, str): raise Unsupported("symbolic codec")
    n = name.lower().replace("_", "-")
    return {"utf8": "utf-8", "us-ascii": "ascii", "iso-8859-1": "latin-1", "latin1": "latin-1"}.get(n, n)

def str_encode(E, v, enc="utf-8"):
    enc = codec(E, enc)
    if isinstance(v, str):
        try: return v.encode(enc)
        except UnicodeError as e: raise PyRaise(e)
    t = E.str_t(v)
    if enc == "utf-8": return E.mky(encode_t(E, t))
    if enc == "ascii":
        if ascii_known(t): return E.mky(t)
        if not E.branch(is_ascii(t)): E.raise_(UnicodeEncodeError)
        E.fact(z3.And(utf8(t) == t))
        return E.mky(t)
    raise Unsupported(f"codec {enc}")

def bytes_decode(E, v, enc="utf-8", errors="strict"):
    enc = codec(E, enc)
    if isinstance(v, bytes):
        try: return v.decode(enc, errors)
        except UnicodeError as e: raise PyRaise(e)
    if errors != "strict": raise Unsupported("decode errors")
    t = E.str_t(v)
    if enc == "utf-8":
        ok = valid_utf8(E, t)
        if ok is True or E.branch(ok): return E.mks(decode_t(E, t))
        E.raise_(UnicodeDecodeError)
    if enc == "ascii":
        if ascii_known(t): return E.mks(t)
        if not E.branch(is_ascii(t)): E.raise_(UnicodeDecodeError)
        E.fact(z3.And(is_utf8(t), utf8d(t) == t))
        return E.mks(t)
    raise Unsupported(f"codec {enc}")

def str_lower(E, t):
    t = z3.simplify(t)
    if z3.is_string_value(t): return sval(z3str(t).lower())
    r = lower(t)
    E.fact(lower(r) == r)
    for kw in E.literals:
        E.fact(z3.Implies(t == sval(kw), r == sval(kw.lower())))
    return r

# ---- split / join
bytesl = uf("byteslist", I, I)
def split_raw(E, s, sep, kind):
    """s.split(sep): concrete HList when the structure of s shows its separators, else a symbolic list."""
    ps = parts(s)
    lit = z3str(sep) if z3.is_string_value(sep) else None
    mk = E.mks if kind == "str" else E.mky
    if lit is not None and len(lit) == 1 and all(z3.is_string_value(p) or known_contains(E, p, sep) is False for p in ps):
        cur, out = [], []
        for p in ps:
            if z3.is_string_value(p):
                bits = z3str(p).split(lit)
                for b in bits[:-1]:
                    cur.append(sval(b)); out.append(cat(*cur)); cur = []
                cur.append(sval(bits[-1]))
            else: cur.append(p)
        out.append(cat(*cur))
        return HList([mk(x) for x in out])
    l = (ssplt if kind == "str" else bytesl)(splt(s, sep))
    E.fact(l_len(l) >= 1)
    E.splits[l.get_id()] = (l, s, sep, kind)
    E.fact((l_len(l) == 1) == z3.Not(z3.Contains(s, sep)))
    E.fact(z3.Implies(l_len(l) == 1, l_item(l, z3.IntVal(0)) == (Val.vstr if kind == "str" else Val.vbytes)(s)))
    return Sym(Val.vlist(l))

def split_facts(E, l, n):
    """If the split has exactly n parts, the text is those parts joined, none containing the separator."""
    e = E.splits.get(l.get_id())
    if e is None: return
    l, s, sep, kind = e
    sel = Val.s if kind == "str" else Val.y
    its = [sel(l_item(l, z3.IntVal(i))) for i in range(n)]
    ks = [(Val.is_vstr if kind == "str" else Val.is_vbytes)(l_item(l, z3.IntVal(i))) for i in range(n)]
    js = []
    for i, x in enumerate(its):
        if i: js.append(sep)
        js.append(x)
    joined = z3.Concat(*js) if len(js) > 1 else js[0]
    E.fact(z3.Implies(l_len(l) == n, z3.And(s == joined, *ks, *[z3.Not(z3.Contains(x, sep)) for x in its])))

def str_split(E, v, sep=None, maxsplit=-1, kind="str", right=False):
    s = E.str_t(v)
    mk = E.mks if kind == "str" else E.mky
    if sep is None:
        if maxsplit == -1:
            l = wsj(E, s)
            if l is not None: return Sym(Val.vlist(l))
            l = ws_split(s)
            E.fact(l_len(l) >= 0)
            E.fact(z3.Implies(s == z3.StringVal(""), l_len(l) == 0))
            return Sym(Val.vlist(l))
        if maxsplit == 1:
            n = E.fresh("nparts", I) if False else uf("ws_n", S, I)(s)
            E.fact(z3.And(n >= 0, n <= 2))
            if E.branch(n == 2):
                a, b = uf("ws_head", S, S)(s), uf("ws_tail", S, S)(s)
                E.fact(z3.And(a != z3.StringVal(""), b != z3.StringVal(""), z3.Not(z3.Contains(a, z3.StringVal(" ")))))
                return HList([mk(a), mk(b)])
            if E.branch(n == 1):
                a = uf("ws_head", S, S)(s)
                return HList([mk(a)])
            return HList([])
        raise Unsupported("split(None, n)")
    E.need(sep, (kind,))
    sp = E.str_t(sep)
    if maxsplit == -1: return split_raw(E, s, sp, kind)
    if maxsplit == 1:
        return HList([mk(x) for x in cut(E, s, sp, right)]) if E.branch(zb(str_contains(E, s, sp))) else HList([v])
    raise Unsupported("split(sep, n)")

pre_ = uf("cut_pre", S, S, S)
post_ = uf("cut_post", S, S, S)
rpre_ = uf("rcut_pre", S, S, S)
rpost_ = uf("rcut_post", S, S, S)

def cut(E, s, sep, right=False):
    """Text before and after the first (last) occurrence of sep, which occurs."""
    ps = parts(s)
    lit = z3str(sep) if z3.is_string_value(sep) else None
    if lit is not None and len(lit) == 1 and all(z3.is_string_value(p) or known_contains(E, p, sep) is False for p in ps):
        l = split_raw(E, s, sep, "str")
        ts = [E.str_t(x) for x in l.items]
        if right: ts = [_rejoin(ts[:-1], sep), ts[-1]]
        else: ts = [ts[0], _rejoin(ts[1:], sep)]
        return ts
    a, b = (rpre_(s, sep), rpost_(s, sep)) if right else (pre_(s, sep), post_(s, sep))
    one = b if right else a
    E.fact(z3.Implies(z3.Contains(s, sep), z3.And(s == z3.Concat(a, sep, b), z3.Not(z3.Contains(one, sep)))))
    l = splt(s, sep)
    return [a, b]

def _rejoin(ts, sep):
    out = []
    for i, t in enumerate(ts):
        if i: out.append(sep)
        out.append(t)
    return cat(*out)

def wsj(E, s):
    """Splitting text that was joined with single spaces from blank-free words gives those words."""
    p = parts(s)
    if len(p) == 1 and z3.is_app(p[0]) and p[0].decl().name() == "joinl" and z3.is_string_value(p[0].arg(0)) and z3str(p[0].arg(0)) == " ":
        E.assumed("scope names contain no white space and are not empty")
        return p[0].arg(1)
    return None

def str_join(E, sep, v, kind):
    mk = E.mks if kind == "str" else E.mky
    if isinstance(v, Gen):
        out = HList()
        E.iterate(v, lambda x: list_append(E, out, x))
        v = out
    k, data = elements(E, v)
    st = E.str_t(sep)
    if k == "concrete":
        if all(isinstance(x, (str, bytes)) for x in data) and isinstance(sep, (str, bytes)):
            try: return sep.join(data)
            except TypeError as e: raise PyRaise(e)
        ts = []
        for i, x in enumerate(data):
            E.need(x, (kind,))
            if i: ts.append(st)
            ts.append(E.str_t(x))
        return mk(cat(*ts))
    if data.src and data.src[0] == "list":
        l = data.src[1]
        return mk(join_term(E, st, l))
    if data.src and data.src[0] == "chars" and z3.is_string_value(st) and z3str(st) == "": return mk(data.src[1])
    # "".join("%02x" % b for b in data)
    if z3.is_string_value(st) and z3str(st) == "" and len(data.alts) == 1:
        b = E.fresh_binder(I)
        val = data.alts[0][1]
        if not callable(val):
            t = z3.substitute(val, (data.var, b))
            x = E.bytes_iter.get(data.length.get_id()) if data.length is not None else None
            if x is not None:
                s0 = x
                if t.eq(Val.vstr(uf("hex2", I, S)(byte_at(s0, b)))):
                    return mk(hexs(s0))
    raise Unsupported("join of a symbolic sequence")

def join_term(E, st, l):
    t = joinl(st, l)
    E.fact(z3.Implies(l_len(l) == 0, t == z3.StringVal("")))
    E.fact(z3.Implies(l_len(l) == 1, z3.Implies(Val.is_vstr(l_item(l, z3.IntVal(0))), t == Val.s(l_item(l, z3.IntVal(0))))))
    return t

def str_replace(E, s, a, b):
    if all(z3.is_string_value(x) for x in (s, a, b)):
        return sval(z3str(s).replace(z3str(a), z3str(b)))
    return uf("replace_all", S, S, S, S)(s, a, b)

def str_strip(E, v, chars, kind, side):
    mk = E.mks if kind == "str" else E.mky
    s = z3.simplify(E.str_t(v))
    if chars is None:
        t = uf({"both": "strip", "l": "lstrip", "r": "rstrip"}[side], S, S)(s)
        return mk(t)
    if isinstance(chars, (str, bytes)) and chars in ("=", b"="):
        if side == "r":
            nm = s.decl().name() if z3.is_app(s) else ""
            if nm == "b64upad":
                from . import libmodels
                return mk(libmodels.b64u_of(E, s.arg(0)))
            if nm == "b64u": return v
            ps = parts(s)
            while ps and z3.is_app(ps[-1]) and (ps[-1].decl().name() == "eqs" or z3.is_string_value(ps[-1]) and set(z3str(ps[-1])) <= {"="}): ps = ps[:-1]
            if len(ps) < len(parts(s)) and ps and z3.is_app(ps[-1]) and ps[-1].decl().name() == "b64u": return mk(cat(*ps))
    return mk(uf(f"strip_{side}", S, S, S)(s, E.str_t(chars)))

def str_method(E, v, name, kind):
    """Methods of str and bytes on symbolic text."""
    mk = E.mks if kind == "str" else E.mky
    s = lambda: E.str_t(v)
    def M(fn): return Model(f"{kind}.{name}", fn)
    def arg(a, i, kw, nm, default=None):
        return a[i] if len(a) > i else kw.get(nm, default)
    if name == "encode" and kind == "str": return M(lambda E, a, k: str_encode(E, v, arg(a, 0, k, "encoding", "utf-8")))
    if name == "decode" and kind == "bytes": return M(lambda E, a, k: bytes_decode(E, v, arg(a, 0, k, "encoding", "utf-8"), arg(a, 1, k, "errors", "strict")))
    if name in ("split", "rsplit"): return M(lambda E, a, k: str_split(E, v, arg(a, 0, k, "sep"), arg(a, 1, k, "maxsplit", -1), kind, name == "rsplit"))
    if name in ("partition", "rpartition"):
        def part(E, a, k):
            E.need(a[0], (kind,))
            sp = E.str_t(a[0])
            if E.branch(zb(str_contains(E, s(), sp))):
                x, y = cut(E, s(), sp, name == "rpartition")
                return (mk(x), a[0], mk(y))
            e = "" if kind == "str" else b""
            return (v, e, e) if name == "partition" else (e, e, v)
        return M(part)
    if name in ("lower", "casefold"): return M(lambda E, a, k: mk(str_lower(E, s())))
    if name == "upper":
        def up(E, a, k):
            t = z3.simplify(s())
            r = upper(t)
            for kw in E.literals: E.fact(z3.Implies(t == sval(kw), r == sval(kw.upper())))
            E.fact(z3.And(lower(r) == lower(t), upper(lower(t)) == r))
            return mk(r)
        return M(up)
    if name in ("strip", "lstrip", "rstrip"): return M(lambda E, a, k: str_strip(E, v, a[0] if a else None, kind, {"strip": "both", "lstrip": "l", "rstrip": "r"}[name]))
    if name in ("startswith", "endswith"):
        def sw(E, a, k):
            xs = a[0] if isinstance(a[0], tuple) else (a[0],)
            fs = []
            for x in xs:
                E.need(x, (kind,))
                fs.append((z3.PrefixOf if name == "startswith" else z3.SuffixOf)(E.str_t(x), s()))
            return E.mkb(z3.Or(fs))
        return M(sw)
    if name == "removeprefix":
        def rp(E, a, k):
            x = E.str_t(a[0])
            if E.branch(z3.PrefixOf(x, s())): return mk(z3.SubString(s(), z3.Length(x), z3.Length(s()) - z3.Length(x)))
            return v
        return M(rp)
    if name == "join": return M(lambda E, a, k: str_join(E, v, a[0], kind))
    if name == "replace": return M(lambda E, a, k: mk(str_replace(E, s(), E.str_t(a[0]), E.str_t(a[1]))))
    if name == "find": return M(lambda E, a, k: E.mki(z3.IndexOf(s(), E.str_t(a[0]), 0)))
    if name == "index":
        def ix(E, a, k):
            if not E.branch(zb(str_contains(E, s(), E.str_t(a[0])))): E.raise_(ValueError)
            return E.mki(z3.IndexOf(s(), E.str_t(a[0]), 0))
        return M(ix)
    if name == "count":
        def cn(E, a, k):
            sp = E.str_t(a[0])
            l = split_raw(E, s(), sp, kind)
            n = seq_len(E, l)
            return n - 1 if isinstance(n, int) else E.mki(E.as_int(n) - 1)
        return M(cn)
    if name == "format": return M(lambda E, a, k: Sym(Val.vstr(E.fresh("fmt", S))))
    if name in ("isascii",):
        return M(lambda E, a, k: E.mkb(True if ascii_known(s()) else is_ascii(s())))
    if name == "hex" and kind == "bytes": return M(lambda E, a, k: E.mks(hexs(s())))
    if name in ("isspace", "isalnum", "isdigit", "isalpha", "isnumeric", "isdecimal", "islower", "isupper", "isidentifier", "isprintable", "istitle"):
        return M(lambda E, a, k: E.mkb(uf("str_" + name, S, B)(s())))
    if name == "__len__": return M(lambda E, a, k: E.mki(str_len(E, s())))
    raise Unsupported(f"{kind}.{name}")

def slice_(E, o, lo, hi, step):
    if isinstance(o, (str, bytes, tuple, list)) and all(conc(x) for x in (lo, hi, step)):
        return o[lo:hi:step]
    if isinstance(o, HList) and o.coll is None and all(conc(x) for x in (lo, hi, step)):
        return HList(o.items[lo:hi:step])
    if isinstance(o, HList) and o.coll is not None: o = snapshot(E, o)
    if isinstance(o, (str, bytes, Sym)) and step is None:
        k = E.need(o, ("str", "bytes", "list"))
        if k == "list":
            if lo is None and hi is None: return o
            raise Unsupported("slice of a symbolic list")
        s = E.str_t(o)
        n = str_len(E, s)
        def norm(x, d):
            if x is None: return d
            i = E.as_int(x)
            i = z3.simplify(i)
            if z3.is_int_value(i):
                return i if i.as_long() >= 0 else z3.If(n + i < 0, z3.IntVal(0), n + i)
            return z3.If(i < 0, z3.If(n + i < 0, z3.IntVal(0), n + i), i)
        a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
        t = z3.SubString(s, a, b - a)
        t = z3.simplify(t)
        return E.mks(t) if k == "str" else E.mky(t)
    raise Unsupported("slice")


# ------------------------------------------------------------------ subscripts
def getitem(E, o, k):
    if isinstance(o, HObj):
        for c in o.cls.__mro__:
            f = c.__dict__.get("__getitem__")
            if isinstance(f, types.FunctionType): return E.call_fn(f, [o, k], {}, c)
            if c is dict: break
        if o.d is None: E.raise_(TypeError)
        for c in o.cls.__mro__:
            if "__missing__" in c.__dict__: raise Unsupported("__missing__")
        o = o.d
    if isinstance(o, dict): o = E.mirror(o)
    if isinstance(o, HDict):
        v = dict_lookup(E, o, k)
        if v is MISSING: E.raise_(KeyError, k)
        return v
    if isinstance(o, (tuple, list, str, bytes)) and conc(k):
        try: return o[k]
        except Exception as e: raise PyRaise(e)
    if isinstance(o, type) and issubclass(o, enum.Enum):
        if isinstance(k, str):
            try: return o[k]
            except KeyError as e: raise PyRaise(e)
        for nm, mem in o.__members__.items():
            if E.branch(E.eq(k, nm)): return mem
        E.raise_(KeyError)
    if isinstance(o, (HList, tuple)):
        if isinstance(o, HList) and o.coll is not None:
            o = Sym(E.term(o)) if o.coll.length is not None else snapshot(E, o)
        else:
            items = o.items if isinstance(o, HList) else o
            if isinstance(k, int):
                if -len(items) <= k < len(items): return items[k]
                E.raise_(IndexError)
            i = E.as_int(k)
            for j, x in enumerate(items):
                if E.branch(z3.Or(i == j, i == j - len(items))): return x
            E.raise_(IndexError)
    if isinstance(o, Sym):
        kd = E.need(o, ("dict", "list", "str", "bytes"))
        if kd == "dict": return getitem(E, E.dict_of(o), k)
        i = E.as_int(k)
        if kd == "list":
            l = lid_of(o)
            i = z3.simplify(i)
            if z3.is_int_value(i) and i.as_long() < 0: i = l_len(l) + i
            if not E.branch(z3.And(0 <= i, i < l_len(l))): E.raise_(IndexError)
            return list_item(E, l, z3.simplify(i))
        s = E.str_t(o)
        n = str_len(E, s)
        i = z3.simplify(i)
        if z3.is_int_value(i) and i.as_long() < 0: i = n + i
        if not E.branch(z3.And(0 <= i, i < n)): E.raise_(IndexError)
        if kd == "str": return E.mks(z3.SubString(s, i, 1))
        return E.mki(byte_at(s, i))
    if isinstance(o, type) or isinstance(o, types.GenericAlias): return o
    if o is None or isinstance(o, (int, float)): E.raise_(TypeError)
    if isinstance(o, IObj): return iface_getitem(E, o, k)
    raise Unsupported(f"subscript of {o!r}")

def iface_getitem(E, o, k):
    if "dict" in o.ghost: return getitem(E, o.ghost["dict"], k)
    raise Unsupported(f"subscript of {o!r}")

def setitem(E, o, k, v):
    if isinstance(o, HObj):
        for c in o.cls.__mro__:
            f = c.__dict__.get("__setitem__")
            if isinstance(f, types.FunctionType):
                E.call_fn(f, [o, k, v], {}, c); return
            if c is dict: break
        if o.d is None: E.raise_(TypeError)
        o = o.d
    if isinstance(o, dict): o = E.mirror(o)
    if isinstance(o, HDict):
        E.d_write(o, hashable(E, k), v); return
    if isinstance(o, HList) and o.coll is None and isinstance(k, int):
        if not -len(o.items) <= k < len(o.items): E.raise_(IndexError)
        it = list(o.items); it[k] = v
        E.l_set(o, it); return
    if isinstance(o, Sym):
        raise Unsupported("write into a symbolic container")
    raise Unsupported("item assignment")


# ------------------------------------------------------------------ attributes of values
def value_attr(E, o, name):
    if isinstance(o, IObj):
        return iface_attr(E, o, name)
    if isinstance(o, DictView):
        raise Unsupported(f"dict view .{name}")
    if isinstance(o, (HDict, HList, HSet)):
        return builtin_method(E, o, name, {HDict: dict, HList: list, HSet: set}[type(o)])
    if isinstance(o, (str, bytes)):
        if not hasattr(o, name): E.raise_(AttributeError, name)
        def call(E, a, k):
            if name in ("join",): return str_join(E, o, a[0], E.kind(o))
            if all(conc_deep(x) for x in a) and not isinstance(k, SymKw) and all(conc_deep(x) for x in k.values()):
                try: return E.from_native(getattr(o, name)(*[to_native(x) for x in a], **{p: to_native(x) for p, x in k.items()}))
                except Exception as e: raise PyRaise(e)
            return E.call(str_method(E, o, name, E.kind(o)), a, k)
        if callable(getattr(o, name)): return Model(f"{type(o).__name__}.{name}", call)
        return getattr(o, name)
    if isinstance(o, (int, float, tuple, frozenset, type(None), bool)):
        if not hasattr(o, name): E.raise_(AttributeError, name)
        v = getattr(o, name)
        if isinstance(o, frozenset) and name in ("issubset", "issuperset", "intersection", "union", "difference"):
            return builtin_method(E, HSet(sorted(o, key=repr)), name, set)
        if callable(v):
            def call(E, a, k):
                if all(conc_deep(x) for x in a):
                    try: return E.from_native(v(*[to_native(x) for x in a], **{p: to_native(x) for p, x in k.items()}))
                    except Exception as e: raise PyRaise(e)
                if isinstance(o, int): return E.call(int_method(E, o, name), a, k)
                if isinstance(o, tuple): return E.call(builtin_method(E, HList(o), name, list), a, k)
                raise Unsupported(f"{type(o).__name__}.{name}")
            return Model(f"{type(o).__name__}.{name}", call)
        return v
    if isinstance(o, Sym):
        k = E.kind(o)
        if k is None:
            ks = [kk for kk in SK if hasattr(KT[kk], name)]
            if "obj" in ks and len(ks) == len(SK):
                if name == "__class__": return TypeOf(o)
                raise Unsupported(f"attribute {name} of a symbolic value")
            for kk in ks:
                if E.branch(is_[kk](o.t)):
                    k = kk; break
            else:
                k = "obj" if E.sym_class(o) else None
                if k is None: E.raise_(AttributeError, name)
        if k == "obj":
            c = E.sym_class(o)
            if c: return c.attr(E, o, name)
        if not hasattr(KT[k], name): E.raise_(AttributeError, name)
        if k in ("str", "bytes"): return str_method(E, o, name, k)
        if k == "dict":
            if name in ("update", "pop", "popitem", "setdefault", "clear", "__setitem__", "__delitem__", "__ior__"): raise Unsupported(f"mutating a symbolic dictionary: {name}")
            return builtin_method(E, E.dict_of(o), name, dict)
        if k == "list": return list_method_sym(E, o, name)
        if k in ("int", "bool"): return int_method(E, o, name)
        if k == "flt":
            if name == "is_integer": return Model("float.is_integer", lambda E, a, kk: E.mkb(z3.ToReal(z3.ToInt(E.as_num(o))) == E.as_num(o)))
        raise Unsupported(f"{k}.{name}")
    if isinstance(o, (BoundM, Closure, Model)):
        if name in ("__name__", "__qualname__"): return getattr(o, "name", None) or getattr(getattr(o, "fn", None), name, "?")
        if isinstance(o, BoundM) and name == "__self__": return o.recv
        if isinstance(o, BoundM) and name == "__func__": return o.fn
        E.raise_(AttributeError, name)
    if isinstance(o, Gen) and name in ("__anext__", "asend", "aclose", "close", "send"):
        raise Unsupported("generator protocol")
    E.raise_(AttributeError, name)

def abstract_attr(E, o, name):
    return MISSING

def iface_attr(E, o, name):
    from . import libmodels
    return libmodels.iface_attr(E, o, name)

def iface_call(E, f, name, args, kw):
    from . import libmodels
    return libmodels.iface_call(E, f, name, args, kw)

def dt_compare(E, op, a, b):
    from . import libmodels
    return libmodels.dt_compare(E, op, a, b)

def list_method_sym(E, o, name):
    l = lid_of(o)
    def M(f): return Model(f"list.{name}", f)
    if name == "copy": return M(lambda E, a, k: o)
    if name == "count": return M(lambda E, a, k: E.mki(z3.If(l_has(l, E.term(a[0])), z3.IntVal(1), z3.IntVal(0))) if False else _unsup("list.count"))
    if name == "__contains__": return M(lambda E, a, k: E.mkb(contains(E, o, a[0])))
    if name == "__len__": return M(lambda E, a, k: seq_len(E, o))
    if name == "index":
        def ix(E, a, k):
            if not E.branch(l_has(l, E.term(a[0]))): E.raise_(ValueError)
            i = l_idx(l, E.term(a[0]))
            E.fact(z3.And(0 <= i, i < l_len(l), l_item(l, i) == E.term(a[0])))
            return E.mki(i)
        return M(ix)
    raise Unsupported(f"mutating a symbolic list: {name}")

def _unsup(m): raise Unsupported(m)

def int_method(E, o, name):
    i = lambda: E.as_int(o)
    def M(f): return Model(f"int.{name}", f)
    if name == "bit_length":
        def bl(E, a, k):
            t = bitlen(i())
            E.fact(z3.And(t >= 0, (t == 0) == (i() == 0)))
            return E.mki(t)
        return M(bl)
    if name == "to_bytes":
        def tb(E, a, k):
            length = E.as_int(a[0] if a else k.get("length", 1))
            order = a[1] if len(a) > 1 else k.get("byteorder", "big")
            if order != "big" or k.get("signed"): raise Unsupported("to_bytes order")
            n = i()
            if E.branch(n < 0): E.raise_(OverflowError)
            if E.branch(length < 0): E.raise_(ValueError)
            b = bitlen(n)
            E.fact(z3.And(b >= 0, (b == 0) == (n == 0)))
            if not E.branch(8 * length >= b): E.raise_(OverflowError)
            return E.mky(be_of(E, n, length))
        return M(tb)
    raise Unsupported(f"int.{name}")

def be_of(E, n, k):
    t = be(n, k)
    E.fact(z3.Implies(z3.And(n >= 0, k >= 0, 8 * k >= bitlen(n)), z3.And(be_int(t) == n, z3.Length(t) == k)))
    return t

def be_int_of(E, s):
    s = z3.simplify(s)
    if z3.is_string_value(s): return z3.IntVal(int.from_bytes(z3str(s).encode("latin-1"), "big"))
    r = be_int(s)
    E.fact(z3.And(r >= 0, bitlen(r) <= 8 * z3.Length(s), z3.Implies(s == z3.StringVal(""), r == 0)))
    return r


def builtin_method(E, inst_, name, owner):
    """Methods of dict, list, set, BaseException, object on interpreted objects."""
    def M(f): return Model(f"{owner.__name__}.{name}", f)
    d = inst_.d if isinstance(inst_, HObj) and inst_.d is not None else inst_ if isinstance(inst_, HDict) else None
    if isinstance(inst_, Sym) and E.kind(inst_) == "dict": d = E.dict_of(inst_)
    if d is not None:
        obj = inst_ if isinstance(inst_, HObj) else d
        overridden = isinstance(inst_, HObj) and owner is not dict and owner is not object and owner in inst_.cls.__mro__
        if name == "get":
            def get(E, a, k): return dict_get(E, d, hashable(E, a[0]), a[1] if len(a) > 1 else None)
            return M(get)
        if name in ("keys", "values", "items"): return M(lambda E, a, k: DictView(d, name))
        if name == "pop":
            def pop(E, a, k):
                v = dict_lookup(E, d, a[0])
                if v is MISSING:
                    if len(a) > 1: return a[1]
                    E.raise_(KeyError, a[0])
                E.d_write(d, a[0], MISSING)
                return v
            return M(pop)
        if name == "update":
            def upd(E, a, k):
                if a: dict_update(E, d, a[0])
                if isinstance(k, SymKw): dict_update(E, d, kwdict(E, k))
                else:
                    for kk, v in k.items(): E.d_write(d, kk, v)
            return M(upd)
        if name == "copy":
            return M(lambda E, a, k: HDict(d.base, d.layers))
        if name == "setdefault":
            def sd(E, a, k):
                v = dict_lookup(E, d, a[0])
                if v is MISSING:
                    v = a[1] if len(a) > 1 else None
                    E.d_write(d, a[0], v)
                return v
            return M(sd)
        if name == "clear": return M(lambda E, a, k: E.d_replace(d, None, []))
        if name == "__init__":
            def init(E, a, k):
                if a: dict_update(E, d, a[0])
                dict_update(E, d, kwdict(E, k))
            return M(init)
        if name == "__setitem__": return M(lambda E, a, k: E.d_write(d, hashable(E, a[0]), a[1]))
        if name == "__getitem__":
            def gi(E, a, k):
                v = dict_lookup(E, d, a[0])
                if v is MISSING: E.raise_(KeyError)
                return v
            return M(gi)
        if name == "__contains__": return M(lambda E, a, k: E.mkb(dict_has(E, d, a[0])))
        if name == "__len__": return M(lambda E, a, k: seq_len(E, d))
        if name == "__delitem__": return M(lambda E, a, k: delitem(E, d, a[0]))
        if name == "__iter__": return M(lambda E, a, k: DictView(d, "keys"))
        if name == "__or__": return M(lambda E, a, k: binop(E, ast.BitOr(), d, a[0]))
    if isinstance(inst_, HList):
        l = inst_
        if name == "append": return M(lambda E, a, k: list_append(E, l, a[0]))
        if name == "extend": return M(lambda E, a, k: list_extend(E, l, a[0]))
        if name == "copy": return M(lambda E, a, k: HList(l.items, l.coll))
        if name == "index" and l.coll is None:
            def ix(E, a, k):
                for i, x in enumerate(l.items):
                    if E.branch(E.eq(x, a[0])): return i
                E.raise_(ValueError)
            return M(ix)
        if name == "count" and l.coll is None:
            return M(lambda E, a, k: sum(1 for x in l.items if E.branch(E.eq(x, a[0]))))
        if name == "pop" and l.coll is None:
            def pop(E, a, k):
                i = a[0] if a else -1
                if not l.items or not isinstance(i, int) or not -len(l.items) <= i < len(l.items): E.raise_(IndexError)
                it = list(l.items); v = it.pop(i)
                E.l_set(l, it)
                return v
            return M(pop)
        if name == "insert" and l.coll is None:
            def ins(E, a, k):
                it = list(l.items); it.insert(a[0], a[1]); E.l_set(l, it)
            return M(ins)
        if name == "__contains__": return M(lambda E, a, k: E.mkb(contains(E, l, a[0])))
        if name == "sort": raise Unsupported("list.sort")
        if name == "remove" and l.coll is None:
            def rm(E, a, k):
                for i, x in enumerate(l.items):
                    if E.branch(E.eq(x, a[0])):
                        E.l_set(l, l.items[:i] + l.items[i + 1:]); return
                E.raise_(ValueError)
            return M(rm)
    if isinstance(inst_, HSet):
        s = inst_
        if name == "add": return M(lambda E, a, k: set_add(E, s, a[0]))
        if name == "issubset": return M(lambda E, a, k: E.mkb(subset(E, s, a[0])))
        if name == "issuperset": return M(lambda E, a, k: E.mkb(subset(E, a[0], s)))
        if name == "isdisjoint":
            def dj(E, a, k):
                kd, data = coll_of(E, s)
                if kd == "concrete": return E.mkb(And(*[Not(z3.simplify(zb(has_term(E, a[0], E.term(x))))) for x in data]))
                return E.mkb(forall_in(E, data, lambda t: z3.Not(has_term(E, a[0], t))))
            return M(dj)
        if name in ("intersection", "union", "difference"):
            def op(E, a, k):
                r = s
                for x in a: r = set_op(E, {"intersection": "and", "union": "or", "difference": "sub"}[name], r, x)
                return r
            return M(op)
        if name == "update":
            def up(E, a, k):
                for x in a:
                    for v in to_concrete_list(E, x): set_add(E, s, v)
            return M(up)
        if name == "copy": return M(lambda E, a, k: HSet(s.items, s.coll))
        if name in ("discard", "remove") and s.coll is None:
            def dc(E, a, k):
                for i, x in enumerate(s.items):
                    if E.branch(E.eq(x, a[0])):
                        E.l_set(s, s.items[:i] + s.items[i + 1:], None, "listall"); return
                if name == "remove": E.raise_(KeyError)
            return M(dc)
    if isinstance(inst_, HObj):
        if name == "__init__":
            def init(E, a, k):
                if issubclass(inst_.cls, BaseException): E.set_attr(inst_, "args", tuple(a))
            return M(init)
        if name == "__setattr__": return M(lambda E, a, k: E.setattr(inst_, a[0], a[1]))
        if name == "__getattribute__": return M(lambda E, a, k: E.getattr(inst_, a[0]))
        if name in ("__str__", "__repr__"): return M(lambda E, a, k: to_str(E, inst_))
        if name == "with_traceback": return M(lambda E, a, k: inst_)
        if name == "__init_subclass__": return M(lambda E, a, k: None)
    raise Unsupported(f"method {owner.__name__}.{name} on {inst_!r}")


# ------------------------------------------------------------------ arithmetic
def binop(E, op, a, b):
    if conc(a) and conc(b):
        import operator as o
        f = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv, ast.Mod: o.mod, ast.Pow: o.pow,
             ast.BitOr: o.or_, ast.BitAnd: o.and_, ast.BitXor: o.xor, ast.LShift: o.lshift, ast.RShift: o.rshift}.get(type(op))
        if f is None: raise Unsupported("operator")
        try: return E.from_native(f(a, b))
        except Exception as e: raise PyRaise(e)
    ka, kb = E.kind(a), E.kind(b)
    if isinstance(op, ast.Mod) and ka in ("str", "bytes"):
        return percent(E, a, b)
    if isinstance(a, IObj) or isinstance(b, IObj):
        from . import libmodels
        return libmodels.iobj_binop(E, op, a, b)
    if isinstance(op, ast.Add):
        if isinstance(a, tuple) and isinstance(b, tuple): return a + b
        if isinstance(a, HList) and isinstance(b, HList):
            if a.coll is None and b.coll is None: return HList(a.items + b.items)
            if a.coll is None and not a.items: return HList(b.items, b.coll)
            if b.coll is None and not b.items: return HList(a.items, a.coll)
            return derived_list(E, lambda t: z3.Or(has_term(E, a, t), has_term(E, b, t)))
        if ka in ("str", "bytes") or kb in ("str", "bytes"):
            k = ka if ka in ("str", "bytes") else kb
            E.need(a, (k,)); E.need(b, (k,))
            return str_concat(E, a, b)
    if isinstance(op, ast.Mult) and (ka in ("str", "bytes") or kb in ("str", "bytes")):
        s, n = (a, b) if ka in ("str", "bytes") else (b, a)
        k = E.kind(s)
        mk = E.mks if k == "str" else E.mky
        if s in ("=", b"="):
            t = eqs(E.as_int(n))
            LEN_FACTS["eqs"](E, t)
            return mk(t)
        raise Unsupported("repetition")
    if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)) and (isinstance(a, (HSet, frozenset, DictView)) or isinstance(b, (HSet, frozenset))):
        return set_op(E, {ast.BitOr: "or", ast.BitAnd: "and", ast.Sub: "sub"}[type(op)], a, b)
    if isinstance(op, ast.BitOr) and (ka == "dict" or kb == "dict"):
        d = HDict()
        dict_update(E, d, a); dict_update(E, d, b)
        return d
    if isinstance(op, ast.Div):
        x, y = E.as_num(a), E.as_num(b)
        if E.branch(y == 0): E.raise_(ZeroDivisionError)
        r = lambda t: z3.ToReal(t) if t.sort() == I else t
        return E.wrap(Val.vflt(r(x) / r(y)))
    if isinstance(op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv, ast.Mod)):
        x, y = E.as_num(a), E.as_num(b)
        if x.sort() != y.sort():
            x, y = (z3.ToReal(x) if x.sort() == I else x), (z3.ToReal(y) if y.sort() == I else y)
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            if x.sort() != I: raise Unsupported("float division")
            y = z3.simplify(y)
            if not z3.is_int_value(y) or y.as_long() <= 0: raise Unsupported("division by a symbolic number")
            r = x / y if isinstance(op, ast.FloorDiv) else x % y
        else:
            r = x + y if isinstance(op, ast.Add) else x - y if isinstance(op, ast.Sub) else x * y
        return E.wrap(Val.vint(r) if r.sort() == I else Val.vflt(r))
    if isinstance(op, ast.RShift) and isinstance(b, int) and 0 <= b < 64: return E.mki(E.as_int(a) / (1 << b))
    if isinstance(op, ast.LShift) and isinstance(b, int) and 0 <= b < 64: return E.mki(E.as_int(a) * (1 << b))
    if isinstance(op, ast.BitAnd) and isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0: return E.mki(E.as_int(a) % (b + 1))
    if ka is not None and kb is not None and ka in ("none", "dict", "obj"): E.raise_(TypeError)
    raise Unsupported(f"operator {type(op).__name__}")

def percent(E, fmt, arg):
    if isinstance(fmt, str):
        args = arg if isinstance(arg, tuple) else (arg,)
        if fmt == "%02x" and len(args) == 1:
            return Sym(Val.vstr(uf("hex2", I, S)(E.as_int(args[0]))))
        import re
        bits = re.split(r"%[sd]", fmt)
        if len(bits) == len(args) + 1 and "%" not in "".join(bits):
            out = bits[0]
            for x, b in zip(args, bits[1:]):
                out = str_concat(E, str_concat(E, out, to_str(E, x)), b)
            return out
    return Sym((Val.vstr if E.kind(fmt) == "str" else Val.vbytes)(E.fresh("fmt", S)))


# ------------------------------------------------------------------ built-in functions
def kinds_for(cls):
    return {str: ("str",), bytes: ("bytes",), int: ("int", "bool"), bool: ("bool",), float: ("flt",), list: ("list",), dict: ("dict",), type(None): ("none",), object: SK}.get(cls)

def isinstance_(E, x, c):
    if isinstance(c, (tuple,)): return Or(*[isinstance_(E, x, y) for y in c])
    if isinstance(c, types.UnionType): return Or(*[isinstance_(E, x, y) for y in c.__args__])
    if isinstance(c, TypeOf): raise Unsupported("isinstance of type()")
    if not isinstance(c, type):
        o = getattr(c, "__origin__", None)
        if o is not None: c = o
        else: raise Unsupported(f"isinstance with {c!r}")
    import collections.abc as abc, numbers, os
    absmap = {abc.Mapping: dict, abc.MutableMapping: dict, abc.Sequence: (str, bytes, list, tuple), abc.Iterable: (str, bytes, list, tuple, dict, set), abc.Collection: (str, bytes, list, tuple, dict, set), abc.Hashable: (str, bytes, int, float, bool, type(None), tuple), numbers.Integral: int, numbers.Number: (int, float), numbers.Real: (int, float)}
    if isinstance(x, Sym):
        if c in absmap: return isinstance_(E, x, absmap[c])
        ks = kinds_for(c)
        if ks is None:
            k = E.kind(x)
            if k is not None and k != "obj": return False
            return E.sym_isinstance(x, c)
        k = E.kind(x)
        if k is not None: return k in ks
        return z3.Or([is_[kk](x.t) for kk in ks])
    if isinstance(x, HObj): return issubclass(x.cls, c)
    if isinstance(x, IObj):
        return x.ghost["isinstance"](c) if "isinstance" in x.ghost else iface_isinstance(E, x, c)
    if isinstance(x, HDict): return issubclass(dict, c)
    if isinstance(x, HList): return issubclass(list, c)
    if isinstance(x, HSet): return issubclass(set, c)
    if isinstance(x, Gen): return issubclass(types.GeneratorType, c) or issubclass(types.AsyncGeneratorType, c)
    if isinstance(x, (BoundM, Model, Closure)): return issubclass(types.FunctionType, c) or c is abc.Callable
    if isinstance(x, Coro): return issubclass(types.CoroutineType, c)
    return isinstance(x, c)

def iface_isinstance(E, x, c):
    from . import libmodels
    return libmodels.iface_isinstance(E, x, c)

def b_type(E, a, k):
    x = a[0]
    if len(a) != 1: raise Unsupported("type()")
    if isinstance(x, HObj): return x.cls
    if isinstance(x, HDict): return dict
    if isinstance(x, HList): return list
    if isinstance(x, HSet): return set
    kd = E.kind(x)
    if isinstance(x, Sym):
        if kd is not None and kd != "obj": return KT[kd]
        return TypeOf(x)
    if isinstance(x, IObj): return x.ghost.get("class", TypeOf(x))
    return type(x)

def typeof_is(E, t, c):
    if isinstance(c, TypeOf): raise Unsupported("type identity")
    if not isinstance(t.v, Sym): return False
    for kk, ty in KT.items():
        if ty is c and c is not object: return is_[kk](t.v.t)
    return False

def b_len(E, a, k):
    if isinstance(a[0], HObj) and a[0].d is None:
        for c in a[0].cls.__mro__:
            if isinstance(c.__dict__.get("__len__"), types.FunctionType): return E.call_fn(c.__dict__["__len__"], [a[0]], {}, c)
    return seq_len(E, a[0])

def b_any(E, a, k):
    try: E.iterate(a[0], lambda v: _brk_if(E, E.truthy(v)))
    except _Brk: return True
    return False

def b_all(E, a, k):
    try: E.iterate(a[0], lambda v: _brk_if(E, Not(E.truthy(v))))
    except _Brk: return False
    return True

def b_next(E, a, k):
    box = []
    def cb(v):
        box[:] = [v]
        raise _Brk
    src = a[0]
    if isinstance(src, IObj) and src.kind == "iter": src = src.ghost["src"]
    elif not isinstance(src, Gen): raise Unsupported("next of a non-generator")
    try: E.iterate(src, cb)
    except _Brk: return box[0]
    if len(a) > 1: return a[1]
    E.raise_(StopIteration)

def b_iter(E, a, k):
    if isinstance(a[0], Gen): return a[0]
    return IObj("iter", src=a[0])

def b_list(E, a, k):
    if not a: return HList()
    v = a[0]
    if isinstance(v, Gen):
        out = HList()
        E.iterate(v, lambda x: list_append(E, out, x))
        return out
    if isinstance(v, Sym) and E.kind(v) == "list": return v
    if isinstance(v, HSet) and v.coll is not None: return snapshot(E, v)
    kd, data = elements(E, v)
    if kd == "concrete": return HList(data)
    if data.src and data.src[0] == "list": return Sym(Val.vlist(data.src[1]))
    return HList(coll=data)

def b_tuple(E, a, k):
    if not a: return ()
    v = a[0]
    if isinstance(v, Gen):
        v = b_list(E, a, k)
    kd, data = elements(E, v)
    if kd == "concrete": return tuple(data)
    return b_list(E, [v], k)

def b_set(E, a, k):
    if not a: return HSet()
    v = a[0]
    if isinstance(v, Gen):
        out = HSet()
        E.iterate(v, lambda x: set_add(E, out, x))
        return out
    kd, data = elements(E, v)
    if kd == "concrete": return make_set(E, data)
    if data.src and data.src[0] == "list":
        # an unhashable element makes this a TypeError
        l = data.src[1]
        if not E.hash_ok(l):
            q = E.bound(Val)
            if not E.branch(z3.ForAll([q], z3.Implies(l_has(l, q), z3.And(z3.Not(Val.is_vlist(q)), z3.Not(Val.is_vdict(q)))), patterns=[l_has(l, q)])):
                E.raise_(TypeError, "unhashable")
    return HSet(coll=data)

def b_dict(E, a, k):
    d = HDict()
    if a:
        v = a[0]
        if isinstance(v, HList) and v.coll is not None or isinstance(v, Gen):
            # {k: v for (k, v) in <symbolic pairs>}: through the loop rule
            def cb(p):
                kk, x = unpack(E, p, 2, None)
                E.d_write(d, kk, x)
            E.iterate(v, cb)
        else: dict_update(E, d, v)
    dict_update(E, d, kwdict(E, k))
    return d

def b_str(E, a, k):
    if not a: return ""
    v = a[0]
    if "encoding" in k or len(a) > 1:
        kd = E.kind(v)
        E.need(v, ("bytes",))
        return bytes_decode(E, v, k.get("encoding", a[1] if len(a) > 1 else "utf-8"))
    return to_str(E, v)

def b_bytes(E, a, k):
    if not a: return b""
    v = a[0]
    if len(a) > 1 or "encoding" in k:
        E.need(v, ("str",))
        return str_encode(E, v, k.get("encoding", a[1] if len(a) > 1 else "utf-8"))
    if E.kind(v) == "bytes": return v
    if conc_deep(v):
        try: return bytes(to_native(v))
        except Exception as e: raise PyRaise(e)
    if isinstance(v, Sym) and E.kind(v) == "str": E.raise_(TypeError)
    raise Unsupported("bytes()")

def b_int(E, a, k):
    if not a: return 0
    v = a[0]
    base = a[1] if len(a) > 1 else k.get("base", 10)
    if conc(v):
        try: return int(*a, **k)
        except Exception as e: raise PyRaise(e)
    if isinstance(v, IObj) or isinstance(v, HObj): E.raise_(TypeError)
    kd = E.kind(v)
    if kd == "flt":
        r = Val.r(v.t) if kind_of_term(v.t) != "flt" else v.t.arg(0)
        return E.mki(z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r)))
    if kd in ("int", "bool"): return E.mki(E.as_int(v))
    if kd in ("str", "bytes"):
        s = z3.simplify(E.str_t(v))
        if base == 16 and z3.is_app(s) and s.decl().name() == "hexs":
            x = s.arg(0)
            if E.branch(x == z3.StringVal("")): E.raise_(ValueError)
            return E.mki(be_int_of(E, x))
        if not E.branch(uf("int_ok", S, I, B)(s, z3.IntVal(base))): E.raise_(ValueError)
        return E.mki(uf("int_of", S, I, I)(s, z3.IntVal(base)))
    E.need(v, ("int", "bool", "flt", "str", "bytes"))
    return b_int(E, a, k)

def b_float(E, a, k):
    v = a[0]
    if conc(v):
        try: return float(v)
        except Exception as e: raise PyRaise(e)
    n = E.as_num(v)
    return E.wrap(Val.vflt(z3.ToReal(n) if n.sort() == I else n))

def b_max(E, a, k, mn=False):
    xs = to_concrete_list(E, a[0]) if len(a) == 1 else list(a)
    if all(conc(x) for x in xs):
        return (min if mn else max)(xs)
    if k: raise Unsupported("max key")
    r = xs[0]
    for x in xs[1:]:
        p, q = E.as_num(r), E.as_num(x)
        if p.sort() != q.sort(): p, q = (z3.ToReal(t) if t.sort() == I else t for t in (p, q))
        t = z3.If((q < p) if mn else (q > p), q, p)
        r = E.wrap(Val.vint(t) if t.sort() == I else Val.vflt(t))
    return r

def b_range(E, a, k):
    if all(isinstance(x, int) for x in a): return range(*a)
    if len(a) == 1 or len(a) == 2 and a[0] == 0:
        n = E.as_int(a[-1])
        j = E.bound(I)
        ln = z3.If(n > 0, n, z3.IntVal(0))
        return IObj("range", elements=("sym", Coll(j, z3.And(0 <= j, j < n), [(True, lambda v: E.mki(v))], length=ln, src=("range", n))))
    raise Unsupported("symbolic range")

def b_sum(E, a, k):
    xs = to_concrete_list(E, a[0])
    r = a[1] if len(a) > 1 else 0
    for x in xs: r = binop(E, ast.Add(), r, x)
    return r

def b_map(E, a, k):
    f, src = a[0], a[1]
    if len(a) > 2: raise Unsupported("map of several sequences")
    return Gen(lambda cb: E.iterate(src, lambda v: cb(E.call(f, [v], {}))), "map")

def b_filter(E, a, k):
    f, src = a
    def run(cb):
        def step(v):
            if E.branch(E.truthy(v if f is None else E.call(f, [v], {}))): cb(v)
        E.iterate(src, step)
    return Gen(run, "filter")

def b_enumerate(E, a, k):
    src = a[0]
    start = a[1] if len(a) > 1 else k.get("start", 0)
    kd, data = elements(E, src)
    if kd == "concrete": return HList([(start + i, v) for i, v in enumerate(data)])
    if data.length is not None and data.var.sort() == I:
        c = Coll(data.var, data.guard, [(cd, (lambda vl: lambda v: (E.mki(v + start), E.coll_elem(data, v, vl)))(vl)) for cd, vl in data.alts], length=data.length)
        return HList(coll=c)
    raise Unsupported("enumerate")

def b_zip(E, a, k):
    xs = [to_concrete_list(E, x) for x in a]
    return HList([tuple(t) for t in zip(*xs)])

def b_sorted(E, a, k):
    v = a[0]
    kd, data = coll_of(E, v)
    if kd == "concrete":
        if all(conc(x) for x in data) and not k: return HList(sorted(data))
        if len(data) <= 1: return HList(data)
        raise Unsupported("sorted")
    if isinstance(v, Sym): return derived_list(E, lambda t: l_has(lid_of(v), t))
    return snapshot(E, HSet(coll=data))

def b_reversed(E, a, k): return HList(list(reversed(to_concrete_list(E, a[0]))))

def b_getattr(E, a, k):
    if not isinstance(a[1], str):
        return getattr_sym(E, a)
    if len(a) > 2: return E.getattr(a[0], a[1], a[2])
    return E.getattr(a[0], a[1])

def getattr_sym(E, a):
    from . import libmodels
    return libmodels.getattr_sym(E, a)

def b_hasattr(E, a, k):
    try:
        E.getattr(a[0], a[1])
        return True
    except PyRaise as e:
        if issubclass(E.exc_class(e.exc), AttributeError): return False
        raise

def b_callable(E, a, k):
    v = a[0]
    if isinstance(v, (BoundM, Model, Closure, FnOf)): return True
    if isinstance(v, HObj): return any("__call__" in c.__dict__ for c in v.cls.__mro__)
    if isinstance(v, IObj): return "call" in v.ghost
    if isinstance(v, Sym): return False
    return callable(v)

def b_issubclass(E, a, k):
    if isinstance(a[0], type): return issubclass(a[0], a[1])
    raise Unsupported("issubclass")

def b_hash(E, a, k):
    hashable(E, a[0])
    return E.mki(uf("pyhash", Val, I)(E.term(a[0])))

def deepcopy(E, a, k):
    return deep(E, a[0])

def deep(E, v):
    if isinstance(v, HDict): return HDict(v.base, [(k, deep(E, x)) for k, x in v.layers])
    if isinstance(v, HObj) and v.d is not None:
        o = HObj(v.cls)
        o.d = deep(E, v.d)
        o.attrs = {k: deep(E, x) for k, x in v.attrs.items()}
        return o
    if isinstance(v, HList): return HList([deep(E, x) for x in v.items], v.coll)
    if isinstance(v, HSet): return HSet(v.items, v.coll)
    if isinstance(v, tuple): return tuple(deep(E, x) for x in v)
    if isinstance(v, dict): return deep(E, E.mirror(v))
    if isinstance(v, HObj): 
        o = HObj(v.cls); o.attrs = {k: deep(E, x) for k, x in v.attrs.items()}; o.ghost = dict(v.ghost); o.abstract = v.abstract
        return o
    if isinstance(v, Sym) and E.kind(v) == "dict":
        d = E.dict_of(v)
        return HDict(d.base, d.layers)
    return v

def shallow(E, a, k):
    v = a[0]
    if isinstance(v, HDict): return HDict(v.base, v.layers)
    if isinstance(v, HObj):
        o = HObj(v.cls); o.d = HDict(v.d.base, v.d.layers) if v.d is not None else None
        o.attrs = dict(v.attrs); o.ghost = dict(v.ghost); o.abstract = v.abstract
        return o
    if isinstance(v, HList): return HList(v.items, v.coll)
    if isinstance(v, HSet): return HSet(v.items, v.coll)
    if isinstance(v, Sym) and E.kind(v) == "dict":
        d = E.dict_of(v)
        return HDict(d.base, d.layers)
    return v

def getmembers(E, a, k):
    """inspect.getmembers on an interpreted instance: its methods, by name."""
    o = a[0]
    pred = a[1] if len(a) > 1 else k.get("predicate")
    if isinstance(o, HObj):
        names = sorted(n for n in dir(o.cls))
        out = []
        for n in names:
            raw = None
            for c in o.cls.__mro__:
                if n in c.__dict__: raw = c.__dict__[n]; break
            if pred is inspect.ismethod:
                if isinstance(raw, types.FunctionType) or isinstance(raw, classmethod): out.append((n, E.getattr(o, n)))
            elif pred is callable or pred is inspect.isroutine:
                if isinstance(raw, (types.FunctionType, classmethod, staticmethod)): out.append((n, E.getattr(o, n)))
            else: raise Unsupported("getmembers predicate")
        return HList(out)
    if isinstance(o, type):
        return HList([(n, v) for n, v in inspect.getmembers(o, *( [pred] if pred else []))])
    raise Unsupported("getmembers")

def b_dir(E, a, k):
    if isinstance(a[0], HObj): return HList(dir(a[0].cls))
    return HList(dir(a[0]))

def b_reduce(E, a, k):
    import operator as op
    f, src = a[0], a[1]
    kd = None
    if isinstance(src, Gen):
        out = HList()
        E.iterate(src, lambda x: list_append(E, out, x))
        src = out
    kd, data = elements(E, src)
    if kd == "concrete":
        xs = list(data)
        if len(a) > 2: xs = [a[2]] + xs
        if not xs: E.raise_(TypeError)
        r = xs[0]
        for x in xs[1:]: r = E.call(f, [r, x], {})
        return r
    if f in (op.concat, op.add) and len(a) == 2:
        if not E.branch(coll_nonempty(E, data)): E.raise_(TypeError)
        from . import libmodels
        return libmodels.concat_all(E, data)
    raise Unsupported("reduce over a symbolic collection")

def context_manager(E, cm):
    from . import libmodels
    return libmodels.context_manager(E, cm)

def dataclass_init(E, c, o, args, kw):
    import dataclasses
    fs = [f for f in dataclasses.fields(c) if f.init]
    kw = dict(kw)
    args = list(args)
    for f in fs:
        if args: v = args.pop(0)
        elif f.name in kw: v = kw.pop(f.name)
        elif f.default is not dataclasses.MISSING: v = E.from_real(f.default)
        elif f.default_factory is not dataclasses.MISSING: v = E.call(f.default_factory, [], {})
        else: E.raise_(TypeError, "missing argument")
        E.set_attr(o, f.name, v)
    if args or kw: E.raise_(TypeError, "unexpected argument")
    if hasattr(c, "__post_init__"): E.call(E.getattr(o, "__post_init__"), [], {})

MODELS = {
    len: b_len, any: b_any, all: b_all, next: b_next, iter: b_iter, list: b_list, tuple: b_tuple, set: b_set, dict: b_dict, str: b_str, bytes: b_bytes,
    int: b_int, float: b_float, max: b_max, min: lambda E, a, k: b_max(E, a, k, True), range: b_range, sum: b_sum, map: b_map, filter: b_filter,
    enumerate: b_enumerate, zip: b_zip, sorted: b_sorted, reversed: b_reversed, getattr: b_getattr, hasattr: b_hasattr, callable: b_callable,
    issubclass: b_issubclass, hash: b_hash, type: b_type, dir: b_dir,
    isinstance: lambda E, a, k: E.mkb(isinstance_(E, a[0], a[1])),
    bool: lambda E, a, k: E.mkb(E.truthy(a[0])) if a else False,
    repr: lambda E, a, k: Sym(Val.vstr(E.fresh("repr", S))) if not conc_deep(a[0]) else repr(to_native(a[0])),
    frozenset: lambda E, a, k: b_set(E, a, k), id: lambda E, a, k: E.oid(a[0]),
    setattr: lambda E, a, k: E.setattr(a[0], a[1], a[2]),
    abs: lambda E, a, k: E.mki(z3.If(E.as_int(a[0]) >= 0, E.as_int(a[0]), -E.as_int(a[0]))) if not conc(a[0]) else abs(a[0]),
    divmod: lambda E, a, k: (binop(E, ast.FloorDiv(), a[0], a[1]), binop(E, ast.Mod(), a[0], a[1])),
    print: lambda E, a, k: None,
    copy.deepcopy: deepcopy, copy.copy: shallow, inspect.getmembers: getmembers,
    __import__("functools").reduce: b_reduce, __import__("operator").concat: lambda E, a, k: binop(E, ast.Add(), a[0], a[1]),
    __import__("operator").add: lambda E, a, k: binop(E, ast.Add(), a[0], a[1]),
    object: lambda E, a, k: HObj(object),
}
for _f in list(MODELS):
    pass

def _m_intfrombytes(E, a, k):
    order = a[1] if len(a) > 1 else k.get("byteorder", "big")
    if order != "big" or k.get("signed"): raise Unsupported("from_bytes order")
    E.need(a[0], ("bytes",))
    return E.mki(be_int_of(E, E.str_t(a[0])))

def lookup_model(f):
    from . import libmodels
    try:
        m = MODELS.get(f)
    except TypeError:
        return None
    if m is None: m = libmodels.MODELS.get(f)
    if m is None and isinstance(f, types.BuiltinFunctionType) and f.__name__ == "from_bytes" and f.__self__ is int: return _m_intfrombytes
    return m

NATIVE_OK_MODS = ("builtins", "string", "re", "datetime", "enum", "typing", "types", "operator", "functools", "inspect", "base64", "binascii", "hashlib", "_hashlib", "json", "urllib", "struct", "_struct", "collections", "itertools", "cryptography", "abc", "_abc", "math", "errno", "posixpath", "_operator", "_functools", "warnings", "contextlib")

def native_ok(f):
    m = getattr(f, "__module__", None) or ""
    if f in (open, input, exec, eval, compile, __import__): return False
    s = getattr(f, "__self__", None)
    if s is not None and not isinstance(s, types.ModuleType):
        m = m or type(s).__module__
        if isinstance(s, (str, bytes, int, float, tuple, frozenset, enum.Enum)): return True
    if isinstance(f, type) and issubclass(f, enum.Enum): return True
    return m.split(".")[0] in NATIVE_OK_MODS or isinstance(f, type) and issubclass(f, BaseException)
