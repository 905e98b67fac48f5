"""Path exploration, path conditions, heap and value primitives."""
import time
from .heap import *


def has_ite(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE): return True
        st.extend(x.children())
    return False


class PathEnd(Exception):
    """The current path is infeasible."""


class Decider:
    """Replays a prefix of decisions, then explores depth first."""
    def __init__(self, prefix=(), scripted=False):
        self.prefix, self.pos, self.log, self.pending, self.scripted = list(prefix), 0, [], [], scripted

    def next(self):
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            self.pos += 1
            self.log.append(c)
            return c
        if self.scripted:
            raise Unsupported("scripted replay ran past its decisions")
        return None


class Stats:
    def __init__(self):
        self.queries = self.unknown = self.paths = 0
        self.time = 0.0


FEAS_MS = 1500


def opaque_text(a):
    """Text with no structure: an input, a fresh constant, or the text of a dictionary entry."""
    if not z3.is_app(a) or a.decl().kind() not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_DT_ACCESSOR): return False
    return a.num_args() == 0 or a.decl().kind() == z3.Z3_OP_DT_ACCESSOR and z3.is_select(a.arg(0))

def free_search(f):
    """A literal in opaque text: both answers are explored unasked (what is impossible is vacuous)."""
    if z3.is_not(f): f = f.arg(0)
    if not (z3.is_app(f) and f.decl().kind() == z3.Z3_OP_SEQ_CONTAINS and z3.is_string_value(f.arg(1))): return False
    return len(f.arg(1).as_string()) > 5 and f.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED or f.arg(0).decl().kind() == z3.Z3_OP_DT_ACCESSOR and opaque_text(f.arg(0))

def len_cmp(f):
    """(text, lo, hi) when f bounds the length of opaque text."""
    pos = True
    while z3.is_not(f): f, pos = f.arg(0), not pos
    if not z3.is_app(f) or f.num_args() != 2: return None
    k, (a, b) = f.decl().kind(), f.children()
    flip = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE}
    if z3.is_int_value(a): a, b, k = b, a, flip.get(k)
    if k not in flip or not z3.is_int_value(b) or not (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_SEQ_LENGTH and opaque_text(a.arg(0))): return None
    n = b.as_long()
    if k == z3.Z3_OP_LE: return (a.arg(0), 0, n) if pos else (a.arg(0), n + 1, None)
    return (a.arg(0), n, None) if pos else (a.arg(0), 0, n - 1)

def long_text(f):
    """The length of an encoding: of no use for deciding branches, and costly with other facts about its letters."""
    if not (z3.is_app(f) and f.decl().kind() == z3.Z3_OP_EQ): return False
    a, b = f.children()
    return any(z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_LENGTH and x.arg(0).decl().name() == "b64u" for x in (a, b))

def skipped(g):
    return bool((b := len_cmp(g)) and max(b[1], b[2] or 0) > 16) or long_text(g)

_consts = {}
def consts(f):
    """Names of the uninterpreted constants in a formula."""
    r = _consts.get(f.get_id())
    if r is not None: return r[1]
    if z3.is_app(f):
        if f.num_args() == 0: c = frozenset([f.decl().name()]) if f.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
        else: c = frozenset().union(*[consts(x) for x in f.children()])
    else: c = frozenset()
    _consts[f.get_id()] = (f, c)
    return c

_subs = {}
def subterms(f):
    """Ids of the terms in a formula."""
    r = _subs.get(f.get_id())
    if r is not None: return r[1]
    out, st = set(), [f]
    while st:
        x = st.pop()
        if x.get_id() in out: continue
        out.add(x.get_id())
        st.extend(x.children())
    _subs[f.get_id()] = (f, out)
    return out

class Engine:
    def __init__(self, stats=None, max_paths=4000, deadline=None):
        self.stats = stats or Stats()
        self.max_paths, self.deadline = max_paths, deadline
        self.reset(())

    # ---- one run -------------------------------------------------------------------------
    def reset(self, prefix):
        self.dec = Decider(prefix)
        self.pc = []                 # (formula, is_fact, quantified)
        self.pcset = {}
        self.hard = 0                # the path conditions have got hard for the solver
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", FEAS_MS)
        self.counter = 0
        self.binders = []
        self.journal = []
        self.kinds = {}
        self.trace = []              # ghost events
        self.imprecise = []
        self.globmut = []
        self.reals = {}              # id(real container) -> mirror
        self.oids = {}               # id(object) -> (oid, object)
        self.lists = {}
        self.insts = {}              # array const id -> instantiator
        self.lookups = {}            # queried keys (for counterexamples)
        self.facts_done = set()
        self.clock = None
        self.depth = 0
        self.without = {}            # arrays that lack these keys
        self.textvals = {}           # arrays all of whose values are non-empty text
        self.strkeys = {}            # arrays all of whose keys are text
        self.list_kinds = {}         # list id -> (kind, term): kind of every element
        self.splits = {}
        self.bytes_iter = {}
        self.assumptions = {}
        self.ghost = {}              # per-run ghost state of models (file system, network, ...)
        self.used_contracts = set()
        self.inlined = set()
        self.modelled = set()

    def explore(self, run):
        """Enumerate all paths of run(); yields (result, engine) after each path."""
        pending = [()]
        n = 0
        while pending:
            prefix = pending.pop()
            self.reset(prefix)
            n += 1
            self.stats.paths += 1
            if n > self.max_paths:
                raise Unsupported(f"more than {self.max_paths} paths")
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget exhausted")
            try:
                res = run()
            except PathEnd:
                pending.extend(self.dec.pending)
                continue
            pending.extend(self.dec.pending)
            yield res

    # ---- symbols and facts ---------------------------------------------------------------
    def fresh(self, name, sort):
        self.counter += 1
        nm = f"{name}!{self.counter}"
        if self.binders:
            f = z3.Function(nm, *[b.sort() for b in self.binders], sort)
            return f(*self.binders)
        return z3.Const(nm, sort)

    def fresh_val(self, name):
        return Sym(self.fresh(name, Val))

    def log(self, undo):
        self.journal.append(undo)

    def _add(self, f, is_fact):
        if isinstance(f, bool):
            if not f:
                raise PathEnd
            return
        f = z3.simplify(f) if not z3.is_quantifier(f) else f
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise PathEnd
        fid = f.get_id()
        if fid in self.pcset:
            return
        q = has_quant(f)
        self.pc.append((f, is_fact, q))
        self.pcset[fid] = f
        self.log(("pc", fid))
        if not q:
            for g in f.children() if z3.is_and(f) else (f,):
                if not skipped(g): self.solver.add(g)
        self._learn(f, True)

    def _learn(self, f, pos):
        if not z3.is_app(f):
            return
        d = f.decl()
        k = d.kind()
        if k == z3.Z3_OP_NOT:
            return
        if k == z3.Z3_OP_AND:
            for a in f.children():
                self._learn(a, True)
        elif k == z3.Z3_OP_DT_IS or k == z3.Z3_OP_DT_RECOGNISER:
            t = f.arg(0)
            nm = d.params()[0].name() if d.params() else d.name()[3:]
            kd = CTORS.get(str(nm))
            if kd:
                self.setkind(t, kd)
        elif k == z3.Z3_OP_EQ:
            a, b = f.arg(0), f.arg(1)
            if a.sort() == Val:
                for x, y in ((a, b), (b, a)):
                    kd = kind_of_term(x)
                    if kd:
                        self.setkind(y, kd)

    def setkind(self, t, kd):
        i = t.get_id()
        if i not in self.kinds:
            self.kinds[i] = (kd, t)
            self.log(("kind", i))

    def fact(self, f):
        """A universally valid fact (axiom instance, contract postcondition)."""
        self._add(f, True)

    def assume(self, f):
        """A path condition."""
        self._add(f, False)

    def check(self, *extra):
        self.stats.queries += 1
        t0 = time.time()
        if self.hard and len(extra) == 1:
            for hops in (1, None) if self.hard < 3 else (1,):
                s = z3.SimpleSolver()
                s.set("timeout", FEAS_MS)
                s.add(self.slice(extra[0], hops))
                s.add(extra[0])
                r = s.check()
                if r == z3.unsat: break
                if r == z3.unknown: self.hard += 1
        else:
            r = self.solver.check(*extra)
            if r == z3.unknown: self.hard += 1
        self.stats.time += time.time() - t0
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def slice(self, f, hops=None):
        """The path conditions that share names with f, directly or by others: enough to see that f cannot be (that it can be is not at stake)."""
        todo = [(g, consts(g)) for g, _, q in self.pc if not q and not skipped(g)]
        seen, out = set(consts(f)), [g for g, c in todo if not c]
        todo = [x for x in todo if x[1]]
        while True:
            hit = [x for x in todo if x[1] & seen]
            if not hit: return out
            todo = [x for x in todo if not x[1] & seen]
            for g, c in hit:
                out.append(g)
                seen |= c
            if hops == 1: return out

    literals = frozenset()           # words whose case folding matters
    symclasses = ()

    def assumed(self, text):
        self.assumptions[text] = True

    def hash_ok(self, l):
        k = self.list_kinds.get(l.get_id())
        return (k is not None and k[0] not in ("list", "dict")) or (z3.is_app(l) and l.decl().name() in ("ws_split", "strlist", "byteslist"))

    def sym_isinstance(self, x, c):
        fs = [z3.And(Val.is_vobj(x.t), sc.pred(Val.oid(x.t))) for sc in self.symclasses if issubclass(sc.cls, c)]
        return Or(*fs)

    def sym_class(self, x):
        for sc in self.symclasses:
            if self.branch(z3.And(Val.is_vobj(x.t), sc.pred(Val.oid(x.t)))):
                return sc
        return None

    # ---- decisions -----------------------------------------------------------------------
    def branch(self, cond):
        """Truth value of cond on this path (forks when both are possible)."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond) if not has_quant(cond) else cond
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if has_quant(cond):
            return self.branch_quant(cond)
        c = self.dec.next()
        if c is None:
            neg = z3.Not(cond)
            if cond.get_id() in self.pcset:
                c = True
            elif z3.simplify(neg).get_id() in self.pcset:
                c = False
            elif free_search(cond):
                self.dec.pending.append(tuple(self.dec.log) + (False,))
                c = True
            elif self.hard and self.open(cond):
                self.dec.pending.append(tuple(self.dec.log) + (False,))
                c = True
            elif len_cmp(cond) is not None:
                c = self.len_branch(len_cmp(cond))
            else:
                can_t = self.check(cond) != z3.unsat
                can_f = self.check(neg) != z3.unsat
                if not can_t and not can_f:
                    raise PathEnd
                if can_t and can_f:
                    self.dec.pending.append(tuple(self.dec.log) + (False,))
                    c = True
                else:
                    c = can_t
            self.dec.log.append(c)
        self.assume(cond if c else z3.Not(cond))
        return c

    def open(self, f):
        """A predicate of the application's objects that no path condition speaks of: both answers are explored unasked."""
        while z3.is_not(f): f = f.arg(0)
        k = f.decl().kind()
        if k in (z3.Z3_OP_DT_IS, z3.Z3_OP_DT_RECOGNISER):
            f = f.arg(0)
            if not (z3.is_app(f) and f.decl().kind() == z3.Z3_OP_UNINTERPRETED and f.num_args()): return False
        elif k != z3.Z3_OP_UNINTERPRETED or not f.num_args() or f.decl().name() == "d_some": return False
        i, pred = f.get_id(), k == z3.Z3_OP_UNINTERPRETED
        return not any(i in subterms(g) for g, fact, _ in self.pc if pred or not fact)

    def len_branch(self, b):
        """A bound on the length of opaque text against the bounds known of it."""
        lo, hi = 0, None
        for f, _, q in self.pc:
            k = None if q else len_cmp(f)
            if k and k[0].eq(b[0]):
                lo = max(lo, k[1])
                if k[2] is not None: hi = k[2] if hi is None else min(hi, k[2])
        if lo >= b[1] and (b[2] is None or hi is not None and hi <= b[2]): return True
        if b[2] is not None and lo > b[2] or hi is not None and hi < b[1]: return False
        self.dec.pending.append(tuple(self.dec.log) + (False,))
        return True

    def pick(self, t, cands):
        """Which of the candidate terms t equals on this path (index), or None; the solver's guess is tried first."""
        i = self.dec.next()
        if i is None:
            i = 0
            if self.check() == z3.sat:
                m = self.solver.model()
                v = m.eval(t, model_completion=True)
                i = next((j for j, c in enumerate(cands) if c.eq(v)), 0)
            self.dec.log.append(i)
        for j in [i] + [x for x in range(len(cands)) if x != i]:
            if self.branch(t == cands[j]): return j
        return None

    def branch_quant(self, cond):
        c = self.dec.next()
        if c is None:
            self.dec.pending.append(tuple(self.dec.log) + (False,))
            c = True
            self.dec.log.append(c)
        self.assume(cond if c else z3.Not(cond))
        return c

    def choose(self, n, label=""):
        """Nondeterministic choice among n alternatives (all explored)."""
        if n == 1:
            return 0
        c = self.dec.next()
        if c is None:
            for i in range(n - 1, 0, -1):
                self.dec.pending.append(tuple(self.dec.log) + (i,))
            c = 0
            self.dec.log.append(c)
        return c

    def feasible(self):
        if self.check() == z3.unsat:
            raise PathEnd

    # ---- nested exploration (bodies of loops over symbolic collections) --------------------
    def mark(self):
        return len(self.journal), len(self.pc), len(self.trace), len(self.imprecise), len(self.globmut)

    def undo(self, m):
        jl, pl, tl, il, gl = m
        while len(self.journal) > jl:
            u = self.journal.pop()
            if u[0] == "pc":
                self.pcset.pop(u[1], None)
            elif u[0] == "kind":
                self.kinds.pop(u[1], None)
            elif u[0] == "fn":
                u[1]()
        del self.pc[pl:]
        del self.trace[tl:]
        del self.imprecise[il:]
        del self.globmut[gl:]

    def nested(self, binders, body):
        """All paths of body() under extra binders. Returns [(decisions, result, branch_formulas, fact_formulas, journal)].
        Leaves the state as it was."""
        out = []
        pending = [()]
        saved, saved_b = self.dec, self.binders
        n = 0
        while pending:
            prefix = pending.pop()
            n += 1
            if n > 400:
                raise Unsupported("too many paths in a loop body")
            m = self.mark()
            self.solver.push()
            self.dec = Decider(prefix)
            self.binders = saved_b + list(binders)
            reals, insts, lists, fd = dict(self.reals), dict(self.insts), dict(self.lists), set(self.facts_done)
            try:
                try:
                    res = body()
                    pend = self.dec.pending
                    seg = self.pc[m[1]:]
                    out.append(dict(dec=tuple(self.dec.log), res=res, B=[f for f, a, _ in seg if not a], F=[f for f, a, _ in seg if a],
                                    J=list(self.journal[m[0]:]), imprecise=self.imprecise[m[3]:], trace=self.trace[m[2]:]))
                except PathEnd:
                    pend = self.dec.pending
                pending.extend(pend)
            finally:
                self.undo(m)
                self.solver.pop()
                self.dec, self.binders = saved, saved_b
                self.reals, self.insts, self.lists, self.facts_done = reals, insts, lists, fd
        return out

    def scripted(self, decisions, body):
        """Run body() following recorded decisions (conditions are assumed, not re-explored)."""
        saved = self.dec
        self.dec = Decider(decisions, scripted=True)
        try:
            return body()
        finally:
            self.dec = saved

    # ---- values --------------------------------------------------------------------------
    def kind(self, v):
        """Known kind of a value on this path, or None."""
        if isinstance(v, Sym):
            k = kind_of_term(v.t)
            if k:
                return k
            k = self.kinds.get(v.t.get_id())
            return k[0] if k else None
        if v is None: return "none"
        if isinstance(v, bool): return "bool"
        if isinstance(v, int): return "int"
        if isinstance(v, float): return "flt"
        if isinstance(v, str): return "str"
        if isinstance(v, bytes): return "bytes"
        if isinstance(v, HDict): return "dict"
        if isinstance(v, HObj): return "dict" if v.d is not None else "obj"
        if isinstance(v, HList): return "list"
        return "obj"

    def is_kind(self, v, kd):
        k = self.kind(v)
        if k is not None:
            return k == kd
        return is_[kd](v.t)

    def wrap(self, t):
        """z3 Val term -> value (concrete when the term is)."""
        t = z3.simplify(t)
        return self.unwrap(Sym(t))

    def unwrap(self, v):
        if not isinstance(v, Sym):
            return v
        t = v.t
        if z3.is_app(t):
            nm = t.decl().name()
            if nm == "none" and t.num_args() == 0:
                return None
            if nm == "absent" and t.num_args() == 0:
                return MISSING
            if nm in ("vbool", "vint", "vstr", "vbytes") and t.num_args() == 1:
                a = t.arg(0)
                if nm == "vbool":
                    if z3.is_true(a): return True
                    if z3.is_false(a): return False
                elif nm == "vint" and z3.is_int_value(a):
                    return a.as_long()
                elif nm == "vstr" and z3.is_string_value(a):
                    return z3str(a)
                elif nm == "vbytes" and z3.is_string_value(a):
                    return z3str(a).encode("latin-1")
            if nm == "vobj" and z3.is_int_value(t.arg(0)):
                o = self.oids.get(("oid", t.arg(0).as_long()))
                if o is not None:
                    return o
        return v

    def term(self, v):
        """Value -> Val term (an immutable snapshot for containers)."""
        if isinstance(v, Sym): return v.t
        if v is None: return Val.none
        if v is MISSING: return Val.absent
        if isinstance(v, bool): return Val.vbool(z3.BoolVal(v))
        if isinstance(v, int): return Val.vint(z3.IntVal(v))
        if isinstance(v, float):
            return Val.vflt(z3.RealVal(repr(v)))
        if isinstance(v, str): return Val.vstr(sval(v))
        if isinstance(v, bytes): return Val.vbytes(bval(v))
        if isinstance(v, HObj) and v.d is not None: return self.term(v.d)
        if isinstance(v, HObj) and v.ghost.get("term") is not None: return v.ghost["term"]
        if isinstance(v, HDict): return Val.vdict(self.did(v))
        if isinstance(v, (HList, tuple, list)): return Val.vlist(self.lid(v))
        if isinstance(v, dict):
            return self.term(self.mirror(v))
        if v is POISON:
            raise Unsupported("use of a value left undefined by a loop")
        if isinstance(v, IObj) and v.ghost.get("term") is not None: return v.ghost["term"]
        return Val.vobj(z3.IntVal(self.oid(v)))

    def oid(self, o):
        i = self.oids.get(id(o))
        if i is None:
            n = len(self.oids) + 1000
            self.oids[id(o)] = (n, o)
            self.oids[("oid", n)] = o
            return n
        return i[0]

    def arr(self, d):
        """Array snapshot of a dictionary."""
        a = d.base if d.base is not None else EMPTY_ARR
        for k, v in d.layers:
            a = z3.Store(a, self.term(k), self.term(v))
        return a

    def did(self, d):
        if not d.layers and d.base is not None and d.base.decl().name() == "d_arr":
            return d.base.arg(0)
        if d.concrete_keys():
            lay = sorted(d.live().items(), key=lambda kv: repr(kv[0]))
            a = EMPTY_ARR
            for k, v in lay:
                a = z3.Store(a, self.term(k), self.term(v))
        else:
            a = self.arr(d)
        a = z3.simplify(a)
        t = d_mk(a)
        if t.get_id() not in self.facts_done:
            self.facts_done.add(t.get_id())
            self.fact(d_arr(t) == a)
            if d.base is None and d.concrete_keys():
                self.fact(d_some(t) == z3.BoolVal(bool(d.live())))
                n = len(d.live())
            elif d.sure():
                self.fact(d_some(t))
        return t

    def dict_of(self, v):
        """HDict view of a dictionary-like value (HDict, dict-subclass instance, Sym of kind dict)."""
        if isinstance(v, HObj) and v.d is not None:
            return v.d
        if isinstance(v, HDict):
            return v
        if isinstance(v, Sym):
            return HDict(base=d_arr(Val.did(v.t)) if kind_of_term(v.t) != "dict" else d_arr(v.t.arg(0)))
        if isinstance(v, dict):
            return self.mirror(v)
        raise Unsupported(f"not a dictionary: {v!r}")

    def lid(self, v):
        if isinstance(v, HList) and v.coll is not None:
            return self.coll_lid(v)
        items = v.items if isinstance(v, HList) else v
        ts = tuple(self.term(x) for x in items)
        key = tuple(t.get_id() for t in ts)
        if key in self.lists:
            return self.lists[key][0]
        n = len(ts)
        mk = z3.Function(f"mklist{n}", *([Val] * n), I) if n else None
        l = mk(*ts) if n else z3.Int("nil")
        self.lists[key] = (l, ts)
        self.fact(l_len(l) == n)
        for i, t in enumerate(ts):
            self.fact(l_item(l, z3.IntVal(i)) == t)
            self.fact(l_has(l, t))
        x = z3.Const("x!", Val)
        self.fact(z3.ForAll([x], l_has(l, x) == z3.Or([x == t for t in ts] or [z3.BoolVal(False)]), patterns=[l_has(l, x)]))
        return l

    def coll_lid(self, v):
        c = v.coll
        if c.length is None:
            raise Unsupported("snapshot of a filtered list")
        l = self.fresh("lst", I)
        self.fact(l_len(l) == c.length)
        j = self.bound(I)
        self.fact(z3.ForAll([j], z3.Implies(c.sub(c.guard, j), z3.Or([z3.And(c.sub(cd, j), l_item(l, j) == c.sub(vl, j)) for cd, vl in c.alts]))))
        v.ghost_lid = l
        return l

    def named(self, t):
        """A name for a term that may not stand in a pattern (conditional terms)."""
        if not has_ite(t): return t
        c = z3.Const(f"nm!{t.get_id()}", t.sort())
        self.fact(c == t)
        return c

    def bound(self, sort):
        self.counter += 1
        return z3.Const(f"q!{self.counter}", sort)

    def mirror(self, real):
        """Symbolic mirror of a real container (class attribute, module global)."""
        h = self.reals.get(id(real))
        if h is None:
            if isinstance(real, dict):
                h = HDict()
                h.layers = [(k, self.mirror(v) if type(v) in (dict, list, set) else v) for k, v in real.items()]
            elif isinstance(real, list):
                h = HList([self.mirror(v) if type(v) in (dict, list, set) else v for v in real])
            elif isinstance(real, (set, frozenset)):
                h = HSet(sorted(real, key=repr))
            else:
                raise Unsupported(f"mirror {type(real)}")
            h.glob = real
            self.reals[id(real)] = h
        return h

    def touch(self, h):
        if h.glob is not None:
            self.globmut.append(h.glob)

    # ---- mutation (journalled) -------------------------------------------------------------
    def set_attr(self, o, name, v):
        old = o.attrs.get(name, MISSING)
        def undo():
            if old is MISSING: o.attrs.pop(name, None)
            else: o.attrs[name] = old
        self.journal.append(("fn", undo, "attr", o, name, v, old))
        o.attrs[name] = v

    def d_write(self, d, k, v):
        self.touch(d)
        n = len(d.layers)
        layers = d.layers
        def undo():
            d.layers = layers
        self.journal.append(("fn", undo, "dict", d, k, v))
        d.layers = layers + [(k, v)]

    def d_replace(self, d, base, layers):
        self.touch(d)
        ob, ol = d.base, d.layers
        def undo():
            d.base, d.layers = ob, ol
        self.journal.append(("fn", undo, "dictall", d, None, None))
        d.base, d.layers = base, list(layers)

    def l_set(self, l, items, coll=None, op="listall", val=None):
        self.touch(l)
        oi, oc = l.items, l.coll
        def undo():
            l.items, l.coll = oi, oc
        self.journal.append(("fn", undo, op, l, val, None))
        l.items, l.coll = items, coll

    def env_set(self, env, name, v):
        old = env.vars.get(name, MISSING)
        def undo():
            if old is MISSING: env.vars.pop(name, None)
            else: env.vars[name] = old
        self.journal.append(("fn", undo, "env", env, name, v, old))
        env.vars[name] = v


_hq = {}
def has_quant(f):
    i = f.get_id()
    r = _hq.get(i)
    if r is not None and r[1] is not None:
        return r[0]
    r = False
    if z3.is_quantifier(f):
        r = True
    elif z3.is_app(f):
        for c in f.children():
            if has_quant(c):
                r = True
                break
    _hq[i] = (r, f)
    return r


def And(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a):
        return False
    return z3.And(*a) if len(a) > 1 else (a[0] if a else True)

def Or(*a):
    a = [x for x in a if x is not False]
    if any(x is True for x in a):
        return True
    return z3.Or(*a) if len(a) > 1 else (a[0] if a else False)

def Not(a):
    return (not a) if isinstance(a, bool) else z3.Not(a)

def Implies(a, b):
    return Or(Not(a), b)

def Iff(a, b):
    if isinstance(a, bool): return b if a else Not(b)
    if isinstance(b, bool): return a if b else Not(a)
    return a == b

def zb(a):
    return z3.BoolVal(a) if isinstance(a, bool) else a

def If(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return z3.If(c, a, b)
