"""Obligations: generated from the real source by symbolic execution, discharged by z3 (and cvc5 in the thorough tier)."""
import os, time, traceback, types
from .interp import *
from . import models, libmodels, vals


class Proof:
    """A driver program over the real code. run(E) executes it and states clauses with E.ensure(label, formula).
    `covers`: labels that some feasible path must reach (vacuity guard)."""
    def __init__(self, name, run, covers=(), what="", budget=90, ms=8000, max_paths=3000, kind="property", inline=()):
        """inline: contracts this proof does not use (the functions are inlined)."""
        self.inline = tuple(inline)
        self.name, self.run, self.covers, self.what, self.budget, self.ms, self.max_paths, self.kind = name, run, tuple(covers), what, budget, ms, max_paths, kind


class Out:
    """Outcome of a call: returned value, or exception object."""
    def __init__(self, v=None, exc=None, cls=None): self.v, self.exc, self.cls = v, exc, cls
    @property
    def ok(self): return self.exc is None
    def raised(self, *cs): return self.exc is not None and issubclass(self.cls, cs)
    def __repr__(self): return f"returns {self.v!r}" if self.ok else f"raises {self.cls.__name__}"


class VEngine(Interp):
    def reset(self, prefix):
        super().reset(prefix)
        self.obls = []
        self.covered = set()
        self.inputs = {}

    # -- used by contracts: nondeterminism resolved by the body's own outcome when the body is checked
    checking = None
    def may_raise(self, classes, when=None):
        """The function may raise one of these; `when`, if given, is a formula that then holds (and does not hold otherwise)."""
        if self.checking is not None:
            g = self.checking
            if not g.ok and g.cls in classes:
                if when is not None: self.promise(when, "raises only when the contract says")
                raise PyRaise(g.exc)
            if when is not None: self.promise(Not(when), "returns only when the contract says")
            return
        i = self.choose(len(classes) + 1)
        if i == 0:
            if when is not None: self.assume(Not(when))
            return
        if when is not None: self.assume(when)
        o = HObj(classes[i - 1]); o.attrs["args"] = (); o.abstract = False
        raise PyRaise(o)

    def impossible(self):
        """Reached only where the contract says the function does not return."""
        if self.checking is not None: self.raise_(RuntimeError, "the contract says the function does not return here")
        raise PathEnd

    def promise(self, f, label="postcondition of the contract"):
        if self.checking is not None: self.ensure(label, self.skolem(f))
        else: self.assume(f)

    def skolem(self, f):
        """A universal goal for an arbitrary constant (with what is known of the keys of dictionaries at that constant)."""
        if isinstance(f, bool): return f
        while z3.is_not(f) and z3.is_not(f.arg(0)): f = f.arg(0).arg(0)
        if z3.is_quantifier(f) and f.is_forall():
            vs = [z3.FreshConst(f.var_sort(i), "sk") for i in range(f.num_vars())]
            for v in vs:
                if v.sort() == Val: self.key_facts(v)
            return z3.substitute_vars(f.body(), *reversed(vs))
        return f

    def key_facts(self, v):
        """What is known of the dictionaries of this path at an arbitrary key."""
        for a in list(self.strkeys.values()):
            self.fact(z3.Or(Val.is_absent(z3.Select(a, v)), Val.is_vstr(v)))
        for a, f in list(self.insts.values()): f(v)

    def any_key(self):
        k = z3.FreshConst(Val, "k")
        self.fact(z3.Not(Val.is_absent(k)))
        self.key_facts(k)
        return k

    # -- used by drivers
    def ensure(self, label, f):
        self.obls.append((label, f if isinstance(f, bool) else f))

    def cover(self, label):
        self.covered.add(label)

    def arg(self, name, kind=None):
        v = Sym(z3.Const("in_" + name, Val))
        self.fact(z3.Not(Val.is_absent(v.t)))
        if kind:
            self.assume(is_[kind](v.t))
        self.inputs[name] = v
        return v

    def str_arg(self, name):
        v = Sym(Val.vstr(z3.Const("in_" + name, S)))
        self.inputs[name] = v
        return v

    def bytes_arg(self, name):
        s = z3.Const("in_" + name, S)
        self.inputs[name] = Sym(Val.vbytes(s))
        return self.inputs[name]

    def int_arg(self, name):
        v = Sym(Val.vint(z3.Const("in_" + name, I)))
        self.inputs[name] = v
        return v

    def dict_arg(self, name, strkeys=True):
        d = z3.Const("in_" + name, I)
        v = Sym(Val.vdict(d))
        if strkeys:
            models.mark_strkeys(self, d_arr(d))
        self.inputs[name] = v
        return v

    def do(self, f, *args, **kw):
        """Call real code; returns an Out."""
        try:
            r = self.call(f, list(args), kw)
            if isinstance(r, Coro):
                r = self.await_(r)
            return Out(v=r)
        except PyRaise as e:
            return Out(exc=e.exc, cls=self.exc_class(e.exc))

    def same(self, a, b):
        """Same Python value, type included, as a formula."""
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            return And(*[self.same(x, y) for x, y in zip(a, b)])
        if isinstance(a, tuple) != isinstance(b, tuple): return False
        if isinstance(a, (HObj,)) and a.d is None or isinstance(b, HObj) and b.d is None:
            return a is b
        if isinstance(a, (IObj, type, BoundM, Model)) or isinstance(b, (IObj, type, BoundM, Model)):
            return a is b
        if isinstance(a, HList) and isinstance(b, HList) and a.coll is None and b.coll is None:
            return len(a.items) == len(b.items) and And(*[self.same(x, y) for x, y in zip(a.items, b.items)])
        if self.kind(a) == "dict" and self.kind(b) == "dict":
            return self.same_dict(a, b)
        if isinstance(a, (HSet, DictView, Gen, Coro)) or isinstance(b, (HSet, DictView, Gen, Coro)):
            raise Unsupported("comparison of results")
        return self.term(a) == self.term(b)

    def same_dict(self, a, b):
        da, db = self.dict_of(a), self.dict_of(b)
        if da.concrete_keys() and db.concrete_keys():
            la, lb = da.live(), db.live()
            if set(la) != set(lb): return False
            return And(*[self.same(la[k], lb[k]) for k in la])
        k = self.any_key()      # extensionality: an arbitrary key
        models.inst(self, self.arr(da), k); models.inst(self, self.arr(db), k)
        for d in (da, db):
            if d.base is not None: models.inst(self, d.base, k)
        return z3.Or(Val.is_absent(k), z3.Select(self.arr(da), k) == z3.Select(self.arr(db), k))

    def get(self, d, key):
        """Term at key of a dict-like value (absent when missing)."""
        h = self.dict_of(d)
        kt = self.term(key)
        models.inst(self, self.arr(h), kt)
        if h.base is not None: models.inst(self, h.base, kt)
        return z3.simplify(z3.Select(self.arr(h), kt))


# ------------------------------------------------------------------ discharge
_AX = None
def axioms():
    global _AX
    if _AX is None:
        _AX = vals.axioms()
    return _AX


def discharge(E, f, ms):
    """(status, model, seconds): 'unsat' discharged, 'sat' refuted, 'unknown'."""
    t0 = time.time()
    if isinstance(f, bool):
        f = z3.BoolVal(f)
    if z3.is_true(f) or not has_quant(f) and z3.is_true(z3.simplify(f)):
        return "unsat", None, 0.0
    qf = [g for g, _, q in E.pc if not q]
    qs = [g for g, _, q in E.pc if q]
    neg = z3.Not(f)
    def ground(ms):
        s = z3.SimpleSolver()
        s.set("timeout", ms)
        s.add(qf)
        s.add(neg)
        return s, s.check()
    s, r = ground(min(1000, ms // 2)) if not has_quant(f) else (None, z3.unknown)
    if r == z3.unsat:
        return "unsat", None, time.time() - t0
    qmodel = s.model() if r == z3.sat else None
    if r == z3.sat and not qs and not uses_containers(qf + [neg]):
        return "sat", qmodel, time.time() - t0
    s = z3.Solver()
    s.set("timeout", ms)
    s.add(qf); s.add(qs); s.add(neg); s.add(axioms())
    r2 = s.check()
    if r2 == z3.unsat:
        return "unsat", None, time.time() - t0
    if r2 == z3.sat:
        return "sat", s.model(), time.time() - t0
    if r == z3.unknown and not has_quant(f) and ms > 2000:
        s, r = ground(ms // 2)
        if r == z3.unsat: return "unsat", None, time.time() - t0
        if r == z3.sat: qmodel = s.model()
    return ("unknown", qmodel, time.time() - t0)


_uc = {}
def uses_containers(fs):
    names = {"l_len", "l_item", "l_has", "d_arr", "d_some", "d_mk"}
    seen = set()
    st = list(fs)
    while st:
        f = st.pop()
        if f.get_id() in seen: continue
        seen.add(f.get_id())
        if z3.is_app(f):
            if f.decl().name() in names: return True
            st.extend(f.children())
        elif z3.is_quantifier(f): return True
    return False


# ------------------------------------------------------------------ counterexample -> Python
def concretise(E, m, v, depth=0):
    if v is None or isinstance(v, (bool, int, float, str, bytes)): return v
    if depth > 4: return None
    if isinstance(v, tuple): return tuple(concretise(E, m, x, depth + 1) for x in v)
    if isinstance(v, HList) and v.coll is None: return [concretise(E, m, x, depth + 1) for x in v.items]
    if isinstance(v, (HDict, HObj)) and (isinstance(v, HDict) or v.d is not None):
        d = E.dict_of(v)
        out = conc_arr(E, m, d.base, depth) if d.base is not None else {}
        for k, x in d.layers:
            kk = concretise(E, m, k, depth + 1)
            if x is MISSING: out.pop(kk, None)
            else: out[kk] = concretise(E, m, x, depth + 1)
        return out
    if not isinstance(v, Sym): return None
    t = m.eval(v.t, model_completion=True)
    k = kind_of_term(t)
    if k in (None, "none", "absent"): return None
    a = t.arg(0)
    if k == "bool": return z3.is_true(a)
    if k == "int": return a.as_long() if z3.is_int_value(a) else 0
    if k == "flt":
        try: return float(a.as_fraction())
        except Exception: return 0.5
    if k == "str": return z3str(a) if z3.is_string_value(a) else ""
    if k == "bytes":
        try: return z3str(a).encode("latin-1")
        except Exception: return b""
    if k == "list":
        n = m.eval(l_len(a), model_completion=True)
        n = min(n.as_long(), 4) if z3.is_int_value(n) else 0
        return [concretise(E, m, Sym(l_item(a, z3.IntVal(i))), depth + 1) for i in range(max(n, 0))]
    if k == "dict": return conc_arr(E, m, d_arr(a), depth)
    return None


def conc_arr(E, m, base, depth):
    out = {}
    keys = list({id(k): k for _, k in E.lookups.values()}.values())
    if z3.is_app(base) and base.decl().name() == "d_arr":
        keys.append(d_wit(base.arg(0)))
    for kt in keys:
        try:
            x = m.eval(z3.Select(base, kt), model_completion=True)
            kk = concretise(E, m, Sym(kt), depth + 1)
            if kind_of_term(x) == "absent" or isinstance(kk, (list, dict)): continue
            out[kk] = concretise(E, m, Sym(x), depth + 1)
        except Exception:
            continue
    return out


# ------------------------------------------------------------------ running a proof
def run_proof(p, disabled=(), no_contracts=False, ms=None, want_smt=False):
    from . import contracts
    t0 = time.time()
    E = VEngine(max_paths=p.max_paths, deadline=t0 + p.budget)
    E.contracts = contracts.table()
    E.disabled = set(disabled)
    E.skip = set(p.inline)
    E.no_contracts = no_contracts
    res = dict(name=p.name, what=p.what, status="proved", obligations=0, discharged=0, paths=0, failures=[], assumptions=set(), used=set(), inlined=set(), modelled=set(), solver_s=0.0, covered=set(), detail="")
    smt = []
    try:
        it = E.explore(lambda: p.run(E))
        while True:
            try:
                next(it)
            except StopIteration:
                break
            res["paths"] += 1
            _path(E, p, res, ms or p.ms, smt if want_smt else None)
            if len(res["failures"]) >= 4: break
    except Unsupported as e:
        res["status"] = "unsupported"
        res["detail"] = f"{e} (line {getattr(E, 'line', None)})"
    except z3.Z3Exception as e:
        res["status"], res["detail"] = "unsupported", f"z3: {e}"
    except RecursionError:
        res["status"], res["detail"] = "unsupported", "recursion"
    except Exception as e:
        res["status"] = "unsupported"
        res["detail"] = f"engine error {type(e).__name__}: {e} " + traceback.format_exc()[-1500:]
    res["solver_s"] = round(res["solver_s"] + E.stats.time, 3)
    if res["failures"]:
        res["status"] = "refuted" if any(f["status"] == "sat" for f in res["failures"]) else ("undischarged" if res["status"] == "proved" else res["status"])
    if res["status"] == "proved":
        miss = [c for c in p.covers if c not in res["covered"]]
        if res["obligations"] == 0 or miss:
            res["status"], res["detail"] = "vacuous", f"obligations={res['obligations']} covers never reached: {miss}"
    res["wall_s"] = round(time.time() - t0, 2)
    for k in ("assumptions", "used", "inlined", "modelled", "covered"):
        res[k] = sorted(res[k])
    if want_smt: res["smt"] = smt
    return res


def _path(E, p, res, ms, smt):
    res["assumptions"] |= set(E.assumptions)
    res["used"] |= E.used_contracts
    res["inlined"] |= E.inlined
    res["modelled"] |= E.modelled
    feasible = None
    if E.covered - res["covered"]:
        s = z3.SimpleSolver(); s.set("timeout", 700)
        s.add([g for g, _, q in E.pc if not q])
        if s.check() != z3.unsat:
            res["covered"] |= E.covered
    for label, f in E.obls:
        res["obligations"] += 1
        st, m, dt = discharge(E, f, ms)
        res["solver_s"] += dt
        if smt is not None and st == "unsat" and not isinstance(f, bool) and not z3.is_true(f):
            s = z3.Solver(); s.add([g for g, _, _ in E.pc]); s.add(z3.Not(f)); s.add(axioms())
            smt.append((label, s.to_smt2()))
        if st == "unsat":
            res["discharged"] += 1
            continue
        if st == "sat" and E.imprecise: st = "unknown"
        inp = {}
        if m is not None:
            for n, v in E.inputs.items():
                try: inp[n] = concretise(E, m, v)
                except Exception as e: inp[n] = None
        res["failures"].append(dict(label=label, status=st, inputs=inp, path=[str(g)[:300] for g, a, _ in E.pc if not a][:40], clause=str(f)[:600], imprecise=[str(x) for x in E.imprecise]))
        if len(res["failures"]) >= 4: return


# ------------------------------------------------------------------ contracts
class Contract:
    """spec(E, args, kw) gives the outcome the function must have (returns, or raises PyRaise); it is what callers see.
    args(E) makes arbitrary arguments within the precondition, for checking the body against the spec."""
    def __init__(self, name, target, spec, args, pre=None, same=None, budget=60, call=None, covers=("returns",), shards=None, coro=False):
        """shards: [(suffix, args, covers)]: the body is checked case by case, the cases together covering the precondition."""
        self.name, self.target, self.spec, self.args, self.pre, self.same, self.budget, self.call, self.covers = name, target, spec, args, pre, same, budget, call, covers
        self.shards = shards or [("", args, covers)]
        self.coro = coro        # an async function: the effects happen when it is awaited

    def parts(self): return [s for s, _, _ in self.shards]

    def apply(self, E, args, kw):
        if self.pre is not None and not self.pre(E, args, kw):
            raise NotApplicable
        if self.coro: return Coro(lambda: self.spec(E, args, kw), self.name)
        return self.spec(E, args, kw)

    def proof(self, part=""):
        _, mkargs, covers = next(x for x in self.shards if x[0] == part)
        def run(E):
            E.verifying = self.target
            args, kw = mkargs(E)
            try:
                if self.call: r = self.call(E, args, kw)
                else: r = E.call(self.target, list(args), kw if isinstance(kw, SymKw) else dict(kw))
                if isinstance(r, Coro): r = E.await_(r)
                got = Out(v=r)
            except PyRaise as e:
                got = Out(exc=e.exc, cls=E.exc_class(e.exc))
            E.verifying = None
            E.checking = got
            try:
                want = Out(v=self.spec(E, list(args), kw if isinstance(kw, SymKw) else dict(kw)))
            except PyRaise as e:
                want = Out(exc=e.exc, cls=E.exc_class(e.exc))
            E.checking = None
            E.cover("returns" if got.ok else "raises")
            if E.globmut: E.ensure("frame: no shared state is written", False)
            if got.ok and want.ok: E.ensure("returns what the contract says", (self.same or VEngine.same)(E, got.v, want.v))
            elif not got.ok and not want.ok: E.ensure("raises what the contract says", got.cls is want.cls)
            else: E.ensure(f"outcome: body {got!r}, contract {want!r}"[:200], False)
        return Proof("contract " + self.name + (f" [{part}]" if part else ""), run, covers=covers, what=f"body of {self.name} against its contract", budget=self.budget, kind="contract")
