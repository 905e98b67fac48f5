"""Symbolic interpreter for the Python subset psion (and reasonable rewritings of it) uses."""
import ast, builtins, inspect, types
from .engine import *
from . import source


class _Ret(Exception):
    def __init__(self, v): self.v = v
class _Brk(Exception): pass
class _Cont(Exception): pass
class _StopGen(Exception):
    """The consumer of a generator stopped early (break / return / exception in the loop body)."""
    def __init__(self, inner): self.inner = inner


class Env(HBase):
    def __init__(self, parent=None, mod=None, names=None, fn=None):
        self.vars, self.parent, self.mod, self.names, self.fn = {}, parent, mod, names, fn
        self.globals_, self.nonlocals_ = set(), set()
        self.on_yield = None
        self.cls = None      # class that owns the running method (for zero-argument super)
        self.first = None


class Interp(Engine):
    contracts = {}           # real function/class -> Contract applied at call sites
    disabled = set()

    def __init__(self, **kw):
        super().__init__(**kw)
        from . import models
        self.M = models

    # =============================== statements ===============================
    def exec_block(self, stmts, env):
        for s in stmts:
            self.exec(s, env)

    def exec(self, s, env):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        self.line = getattr(s, "lineno", None)
        m(s, env)

    def x_Expr(self, s, env): self.ev(s.value, env)
    def x_Pass(self, s, env): pass

    def x_Return(self, s, env):
        raise _Ret(self.ev(s.value, env) if s.value else None)

    def x_Break(self, s, env): raise _Brk
    def x_Continue(self, s, env): raise _Cont

    def x_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.bind(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.bind(s.target, self.ev(s.value, env), env)

    def x_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            self.bind(t, self.aug(s.op, cur, self.ev(s.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            self.setattr(o, t.attr, self.aug(s.op, self.getattr(o, t.attr), self.ev(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value, env), self.ev(t.slice, env)
            self.setitem(o, k, self.aug(s.op, self.getitem(o, k), self.ev(s.value, env)))

    def aug(self, op, a, b):
        if isinstance(a, HList) and isinstance(op, ast.Add):
            self.M.list_extend(self, a, b)
            return a
        if isinstance(a, (HDict,)) and isinstance(op, ast.BitOr):
            self.M.dict_update(self, a, b)
            return a
        if isinstance(a, HSet) and isinstance(op, (ast.BitOr,)):
            raise Unsupported("set |=")
        return self.binop(op, a, b)

    def x_If(self, s, env):
        if self.branch(self.truthy(self.ev(s.test, env))):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def x_Assert(self, s, env):
        if not self.branch(self.truthy(self.ev(s.test, env))):
            self.raise_(AssertionError)

    def x_Raise(self, s, env):
        if s.exc is None:
            if not self.handling:
                self.raise_(RuntimeError)
            raise PyRaise(self.handling[-1])
        e = self.ev(s.exc, env)
        if s.cause is not None:
            self.ev(s.cause, env)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = self.call(e, [], {})
        raise PyRaise(e)

    handling = ()

    def raise_(self, cls, *args):
        if source.in_repo(getattr(cls, "__init__", None)) if isinstance(getattr(cls, "__init__", None), types.FunctionType) else False:
            raise PyRaise(self.call(cls, list(args), {}))
        o = HObj(cls)
        o.attrs["args"] = tuple(args)
        raise PyRaise(o)

    def exc_class(self, e):
        return e.cls if isinstance(e, HObj) else type(e)

    def x_Try(self, s, env):
        def body():
            try:
                self.exec_block(s.body, env)
            except PyRaise as pr:
                h = self.match_handler(s.handlers, pr.exc, env)
                if h is None:
                    raise
                old = self.handling
                self.handling = tuple(old) + (pr.exc,)
                try:
                    if h.name:
                        self.env_store(h.name, pr.exc, env)
                    self.exec_block(h.body, env)
                finally:
                    self.handling = old
            else:
                self.exec_block(s.orelse, env)
        if not s.finalbody:
            return body()
        try:
            body()
        except (PyRaise, _Ret, _Brk, _Cont):
            self.exec_block(s.finalbody, env)   # a raise/return inside replaces the pending one
            raise
        except _StopGen:
            self.exec_block(s.finalbody, env)
            raise
        else:
            self.exec_block(s.finalbody, env)

    def match_handler(self, handlers, exc, env):
        ec = self.exc_class(exc)
        for h in handlers:
            if h.type is None:
                return h
            t = self.ev(h.type, env)
            ts = t if isinstance(t, tuple) else (t,)
            for c in ts:
                if not isinstance(c, type):
                    raise Unsupported("except with a non-class")
                if issubclass(ec, c):
                    return h
        return None

    def x_With(self, s, env):
        if len(s.items) != 1:
            raise Unsupported("with several items")
        it = s.items[0]
        cm = self.ev(it.context_expr, env)
        enter, exit_ = self.M.context_manager(self, cm)
        v = enter()
        if it.optional_vars is not None:
            self.bind(it.optional_vars, v, env)
        try:
            self.exec_block(s.body, env)
        except PyRaise as pr:
            if exit_(pr.exc):
                return
            raise
        except (_Ret, _Brk, _Cont):
            exit_(None)
            raise
        exit_(None)

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.M.delitem(self, self.ev(t.value, env), self.ev(t.slice, env))
            elif isinstance(t, ast.Name):
                self.env_set(self.scope_of(t.id, env), t.id, MISSING)
            else:
                raise Unsupported("del")

    def x_Global(self, s, env): env.globals_.update(s.names)
    def x_Nonlocal(self, s, env): env.nonlocals_.update(s.names)

    def x_FunctionDef(self, s, env):
        v = self.closure(s, env, s.name)
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, env), [v], {})
        self.env_store(s.name, v, env)
    x_AsyncFunctionDef = x_FunctionDef

    def x_Import(self, s, env):
        import importlib
        for al in s.names:
            m = importlib.import_module(al.name)
            if al.asname:
                self.env_store(al.asname, m, env)
            else:
                self.env_store(al.name.split(".")[0], importlib.import_module(al.name.split(".")[0]), env)

    def x_ImportFrom(self, s, env):
        import importlib
        pkg = env.mod.get("__package__") if s.level else None
        m = importlib.import_module("." * s.level + (s.module or ""), pkg)
        for al in s.names:
            if hasattr(m, al.name):
                v = getattr(m, al.name)
            else:
                v = importlib.import_module(m.__name__ + "." + al.name)
            self.env_store(al.asname or al.name, v, env)

    def x_While(self, s, env):
        n = 0
        while True:
            if not self.branch(self.truthy(self.ev(s.test, env))):
                self.exec_block(s.orelse, env)
                return
            n += 1
            if n > 64:
                raise Unsupported("while loop beyond 64 iterations")
            try:
                self.exec_block(s.body, env)
            except _Brk:
                return
            except _Cont:
                pass

    def x_For(self, s, env):
        src = self.ev(s.iter, env)
        def step(v):
            self.bind(s.target, v, env)
            try:
                self.exec_block(s.body, env)
            except _Cont:
                pass
        try:
            self.iterate(src, step)
        except _Brk:
            return
        self.exec_block(s.orelse, env)

    def x_AsyncFor(self, s, env):
        self.x_For(s, env)

    def x_Match(self, s, env):
        subj = self.ev(s.subject, env)
        for c in s.cases:
            if self.match_pat(c.pattern, subj, env) and (c.guard is None or self.branch(self.truthy(self.ev(c.guard, env)))):
                self.exec_block(c.body, env)
                return

    def match_pat(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.branch(self.eq(v, self.ev(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return self.branch(self.is_same(v, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, env):
                return False
            if p.name:
                self.env_store(p.name, v, env)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(q, v, env) for q in p.patterns)
        raise Unsupported("match pattern")

    # =============================== iteration ===============================
    def iterate(self, src, cb):
        """Run cb on every element of src; cb may raise _Brk/_Ret/PyRaise to stop."""
        if isinstance(src, Gen):
            if src.used:
                return
            src.used = True
            src.run(cb)
            return
        k, data = self.M.elements(self, src)
        if k == "concrete":
            for v in data:
                cb(v)
            return
        # symbolic collection: the loop rule
        self.loop_rule(data, cb)

    def loop_rule(self, coll, cb):
        var, guard = coll.var, coll.guard
        def elem(v):
            """Element for binder v: chooses the alternative."""
            alts = coll.alts
            if len(alts) == 1:
                c, val = alts[0]
                if c is not True:
                    self.assume(coll.sub(c, v))
                return self.coll_elem(coll, v, val)
            i = self.choose(len(alts))
            c, val = alts[i]
            self.assume(coll.sub(c, v))
            return self.coll_elem(coll, v, val)
        gen = self.fresh_binder(var.sort())
        def body_at(v):
            def run():
                self.assume(coll.sub(guard, v))
                x = elem(v)
                try:
                    cb(x)
                    return ("cont", None)
                except _Brk:
                    return ("brk", None)
                except _Ret as r:
                    return ("ret", r.v)
                except PyRaise as e:
                    return ("exc", e.exc)
                except _StopGen as e:
                    return ("stop", e)
            return run
        stamp0 = now_stamp()
        paths = self.nested([gen], body_at(gen))
        cont = [p for p in paths if p["res"][0] == "cont"]
        exits = [p for p in paths if p["res"][0] != "cont"]
        for p in paths:
            if p["trace"]:
                raise Unsupported("events inside a loop over a symbolic collection")
        # writes of the continuing paths
        acc = self.accumulators(cont, stamp0)
        flags = acc["flags"]
        g = coll.sub(guard, gen)
        alts_ok = coll_alts_ok(coll, gen)
        def closed(ps):
            alts = [z3.And([zb(f) for f in p["B"] + p["F"]] or [z3.BoolVal(True)]) for p in ps]
            return z3.Or(alts or [z3.BoolVal(False)])
        def cont_formula(extra_guard=None, ps=cont):
            gg = z3.And(g, alts_ok) if alts_ok is not None else g
            gg = z3.And(gg, extra_guard) if extra_guard is not None else gg
            return z3.ForAll([gen], z3.Implies(gg, closed(ps)))
        n = 1 + len(exits) + len(flags)
        c = self.choose(n)
        if c == 0:
            non = [p for p in cont if not p.get("flag")]
            self.assume(cont_formula(ps=non if flags else cont))
            self.imprecise.extend(x for p in cont for x in p["imprecise"])
            self.apply_accumulators(acc, coll, gen, cont)
            return
        if c <= len(exits):
            p = exits[c - 1]
            j0 = self.fresh("at", var.sort())
            if acc["acc"]:
                self.poison(acc)
            for env, name in acc["env"]:
                self.env_set(env, name, POISON)
            if var.sort() == I and coll.length is not None:
                # every earlier element continued
                self.assume(cont_formula(extra_guard=z3.And(gen < j0)))
            def go():
                r = body_at(j0)()
                kind, v = r
                return r
            kind, v = self.scripted(p["dec"], go)
            if kind == "brk": raise _Brk
            if kind == "ret": raise _Ret(v)
            if kind == "exc": raise PyRaise(v)
            if kind == "stop": raise v
            raise Unsupported("loop exit replay")
        # a flag assignment happened at some element
        env, name, val, ps = flags[c - 1 - len(exits)]
        j0 = self.fresh("at", var.sort())
        self.assume(cont_formula())
        self.assume(z3.substitute(z3.And(g, closed(ps)), (gen, j0)))
        for e2, n2 in acc["env"]:
            self.env_set(e2, n2, POISON)
        self.env_set(env, name, val)

    def fresh_binder(self, sort):
        self.counter += 1
        return z3.Const(f"b!{self.counter}", sort)

    def coll_elem(self, coll, v, val):
        if callable(val):
            return val(v)
        return self.wrap(coll.sub(val, v))

    def accumulators(self, cont, stamp0):
        """Classify the writes of the continuing paths of a loop body to objects that existed before the loop."""
        envw, acc = {}, {}
        for p in cont:
            per, last = {}, {}
            for u in p["J"]:
                if u[0] != "fn":
                    continue
                op, obj = u[2], u[3]
                if op == "lazy": continue
                if getattr(obj, "stamp", 0) > stamp0:
                    continue
                if op == "env":
                    envw[(id(obj), u[4])] = (obj, u[4])
                    last[(id(obj), u[4])] = u[5]
                else:
                    per.setdefault(id(obj), []).append((op, obj, u[4], u[5]))
                    acc[id(obj)] = obj
            p["per"], p["envlast"] = per, last
        # flags: a variable that existed before the loop and is only ever assigned one constant in it
        fl = []
        for (eid, name), (env, _) in list(envw.items()):
            before = env.vars.get(name, MISSING)
            if before is MISSING or before is POISON:
                continue
            ps = [p for p in cont if (eid, name) in p["envlast"]]
            vals = [p["envlast"][(eid, name)] for p in ps]
            if all(isinstance(v, (bool, int, str, type(None))) for v in vals) and len(set(map(repr, vals))) == 1:
                fl.append((env, name, vals[0], ps))
        if len(fl) == 1:
            env, name, _, ps = fl[0]
            for p in ps:
                p["flag"] = True
            del envw[(id(env), name)]
        else:
            fl = []
        return dict(env=list(envw.values()), acc=acc, flags=fl)

    def poison(self, acc):
        # what was gathered before an early exit is forgotten: the container may hold anything
        for o in acc["acc"].values():
            self.imprecise.append("container at an early loop exit")
            if isinstance(o, HDict): self.d_replace(o, self.fresh("any", ArrS), [])
            else: self.l_set(o, [], self.M.list_coll(self, self.fresh("any", I)))

    def apply_accumulators(self, acc, coll, gen, cont):
        for env, name in acc["env"]:
            self.env_set(env, name, POISON)
        for oid_, obj in acc["acc"].items():
            opss = [p["per"].get(oid_, []) for p in cont]
            kinds = {o[0] for ops in opss for o in ops}
            if any(len(ops) > 1 for ops in opss) or len(kinds) != 1:
                raise Unsupported("loop body writes a container several times")
            kd = kinds.pop()
            alts = []
            for p, ops in zip(cont, opss):
                if ops:
                    cond = z3.And([zb(f) for f in p["B"] + p["F"]] or [z3.BoolVal(True)])
                    alts.append((cond, ops[0]))
            every = all(opss)
            g = coll.sub(coll.guard, gen)
            if kd == "append" and not obj.items and obj.coll is None:
                c2 = Coll(gen, g, [(c, self.term(o[2])) for c, o in alts], length=coll.length if every else None)
                self.l_set(obj, [], c2)
            elif kd == "add" and not obj.items and obj.coll is None:
                c2 = Coll(gen, g, [(c, self.term(o[2])) for c, o in alts])
                self.l_set(obj, [], c2)
            elif kd == "dict" and obj.base is None and not obj.layers:
                c2 = Coll(gen, g, [(c, (self.term(o[2]), self.term(o[3]))) for c, o in alts])
                nd = self.M.dict_from_coll(self, c2)
                self.d_replace(obj, nd.base, nd.layers)
            else:
                raise Unsupported(f"accumulation pattern {kd}")

    # =============================== binding ===============================
    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            self.env_store(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = self.M.unpack(self, v, len(t.elts), star[0] if star else None)
            for e, x in zip(t.elts, vals):
                self.bind(e.value if isinstance(e, ast.Starred) else e, x, env)
        else:
            raise Unsupported(f"assignment target {type(t).__name__}")

    def scope_of(self, name, env):
        e = env
        while e is not None:
            if name in e.globals_:
                return None
            if name in e.nonlocals_:
                e = e.parent
                continue
            if e.names is None or name in e.names:
                if e.names is not None or e.parent is None:
                    return e
                if name in e.vars:
                    return e
            e = e.parent
        return None

    def env_store(self, name, v, env):
        e = env
        if name in e.globals_:
            raise Unsupported("assignment to a global variable")
        if name in e.nonlocals_:
            e = e.parent
            while e is not None and name not in e.vars:
                e = e.parent
            if e is None:
                raise Unsupported("nonlocal")
        self.env_set(e, name, v)

    def lookup(self, name, env):
        e = env
        while e is not None:
            if name not in e.globals_ and name in e.vars and e.vars[name] is not MISSING:
                v = e.vars[name]
                if v is POISON:
                    raise Unsupported(f"variable {name} used after a loop over a symbolic collection")
                return v
            if e.names is not None and name in e.names and name not in e.globals_ and name not in e.nonlocals_:
                self.raise_(UnboundLocalError, name)
            e = e.parent
        if name in env.mod:
            return self.from_real(env.mod[name], f"{env.mod.get('__name__')}.{name}")
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.raise_(NameError, name)

    def from_real(self, v, name=""):
        """Real value -> interpreter value."""
        if isinstance(v, (dict, list, set)) and type(v) in (dict, list, set):
            if name.split(".")[-1].startswith("__") and isinstance(v, dict) and name.endswith("__builtins__"):
                return v
            return self.mirror(v)
        return v

    # =============================== expressions ===============================
    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env)

    def e_Constant(self, e, env): return e.value
    def e_Name(self, e, env): return self.lookup(e.id, env)
    def e_Attribute(self, e, env): return self.getattr(self.ev(e.value, env), e.attr)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        t = env
        while getattr(t, "comp", False):
            t = t.parent
        self.env_store(e.target.id, v, t)
        return v

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        for x in e.values[:-1]:
            v = self.ev(x, env)
            b = self.branch(self.truthy(v))
            if b != isand:
                return v
        return self.ev(e.values[-1], env)

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return self.mkb(Not(self.truthy(v)))
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)): return -v
            return self.mki(-self.as_int(v))
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(v, int):
            return ~v
        raise Unsupported("unary operator")

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def e_Compare(self, e, env):
        l = self.ev(e.left, env)
        res = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            rv = self.ev(r, env)
            c = self.compare(op, l, rv)
            if i == len(e.ops) - 1:
                return self.mkb(c)
            if not self.branch(c):
                return False
            l = rv

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.branch(self.truthy(self.ev(e.test, env))) else e.orelse, env)

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.zero_super(env)
        f = self.ev(e.func, env)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.M.to_concrete_list(self, self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        extra = None
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value, env)
                d = self.dict_of(v) if not isinstance(v, dict) else self.mirror(v)
                if d.concrete_keys() and extra is None:
                    for kk, vv in d.live().items():
                        kw[kk] = vv
                elif not kw and extra is None:
                    extra = v
                else:
                    extra = self.M.dict_merge(self, extra, kw, d)
                    kw = {}
            else:
                if k.arg in kw:
                    self.raise_(TypeError, "duplicate keyword")
                kw[k.arg] = self.ev(k.value, env)
        if extra is not None:
            kw = SymKw(self.dict_of(extra), kw)
        return self.call(f, args, kw)

    def zero_super(self, env):
        e = env
        while e is not None and e.cls is None:
            e = e.parent
        if e is None:
            raise Unsupported("super() outside a method")
        return SuperObj(e.cls, e.first)

    def e_Await(self, e, env):
        return self.await_(self.ev(e.value, env))

    def await_(self, v):
        if isinstance(v, Coro):
            return v.thunk()
        raise Unsupported(f"await on {v!r}")

    def e_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value else None
        t = env
        while t.on_yield is None:
            t = t.parent
            if t is None:
                raise Unsupported("yield")
        try:
            t.on_yield(v)
        except (_Brk, _Ret, PyRaise) as x:
            raise _StopGen(x)
        return None

    def e_YieldFrom(self, e, env):
        t = env
        while t.on_yield is None:
            t = t.parent
        def cb(v):
            try:
                t.on_yield(v)
            except (_Brk, _Ret, PyRaise) as x:
                raise _StopGen(x)
        self.iterate(self.ev(e.value, env), cb)
        return None

    def e_Lambda(self, e, env): return self.closure(e, env, "<lambda>")

    def closure(self, node, env, name):
        a = node.args
        defaults = [self.ev(d, env) for d in a.defaults]
        kwd = {k.arg: self.ev(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return Closure(node, env, env.mod, defaults, kwd, name)

    def e_JoinedStr(self, e, env):
        out = ""
        for p in e.values:
            if isinstance(p, ast.Constant):
                s = p.value
            else:
                v = self.ev(p.value, env)
                spec = self.ev(p.format_spec, env) if p.format_spec is not None else ""
                if p.conversion == 114 or spec:
                    s = self.M.format_value(self, v, spec, "r" if p.conversion == 114 else None)
                else:
                    s = self.M.to_str(self, v)
            out = self.M.str_concat(self, out, s)
        return out

    def e_Tuple(self, e, env): return tuple(self.seq(e.elts, env))
    def e_List(self, e, env): return HList(self.seq(e.elts, env))

    def e_Set(self, e, env):
        return self.M.make_set(self, self.seq(e.elts, env))

    def seq(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.M.to_concrete_list(self, self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = HDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.M.dict_update(self, d, self.ev(v, env))
            else:
                kk = self.ev(k, env)
                self.d_write(d, kk, self.ev(v, env))
        return d

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(e.slice, ast.Slice):
            g = lambda x: self.ev(x, env) if x is not None else None
            return self.M.slice_(self, o, g(e.slice.lower), g(e.slice.upper), g(e.slice.step))
        return self.getitem(o, self.ev(e.slice, env))

    # ---- comprehensions -----------------------------------------------------------------
    def comp_run(self, gens, env, emit):
        def level(i, en):
            if i == len(gens):
                emit(en)
                return
            g = gens[i]
            src = self.ev(g.iter, en)
            def step(v):
                e2 = Env(parent=en, mod=en.mod)
                e2.comp = True
                self.bind(g.target, v, e2)
                for c in g.ifs:
                    if not self.branch(self.truthy(self.ev(c, e2))):
                        return
                level(i + 1, e2)
            self.iterate(src, step)
        level(0, env)

    def e_GeneratorExp(self, e, env):
        def run(cb):
            self.comp_run(e.generators, env, lambda en: cb(self.ev(e.elt, en)))
        g = Gen(run, "genexp")
        g.simple = (e, env)
        return g

    def e_ListComp(self, e, env):
        out = HList()
        self.comp_run(e.generators, env, lambda en: self.M.list_append(self, out, self.ev(e.elt, en)))
        return out

    def e_SetComp(self, e, env):
        out = HSet()
        self.comp_run(e.generators, env, lambda en: self.M.set_add(self, out, self.ev(e.elt, en)))
        return out

    def e_DictComp(self, e, env):
        out = HDict()
        def emit(en):
            k = self.ev(e.key, en)
            self.d_write(out, k, self.ev(e.value, en))
        self.comp_run(e.generators, env, emit)
        return out

    # =============================== operators ===============================
    def mkb(self, f):
        if isinstance(f, bool):
            return f
        if not has_quant(f):
            f = z3.simplify(f)
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        return Sym(Val.vbool(f))

    def mki(self, t):
        if isinstance(t, int):
            return t
        return self.wrap(Val.vint(t))

    def mks(self, t): return t if isinstance(t, str) else self.wrap(Val.vstr(t))
    def mky(self, t): return t if isinstance(t, bytes) else self.wrap(Val.vbytes(t))

    def str_t(self, v):
        """z3 string of a str/bytes value whose kind is known."""
        if isinstance(v, str): return sval(v)
        if isinstance(v, bytes): return bval(v)
        k = self.kind(v)
        kt = kind_of_term(v.t)
        if kt in ("str", "bytes"):
            return v.t.arg(0)
        return Val.s(v.t) if k == "str" else Val.y(v.t)

    def need(self, v, kinds, exc=TypeError):
        """Fork on the kind of v; raise exc for other kinds. Returns the kind."""
        k = self.kind(v)
        if k is not None:
            if k in kinds:
                return k
            self.raise_(exc)
        for kd in kinds:
            if self.branch(is_[kd](v.t)):
                return kd
        self.raise_(exc)

    def as_int(self, v, exc=TypeError):
        if isinstance(v, bool): return z3.IntVal(int(v))
        if isinstance(v, int): return z3.IntVal(v)
        if not isinstance(v, Sym):
            self.raise_(exc)
        k = self.need(v, ("int", "bool"), exc)
        if k == "int":
            return v.t.arg(0) if kind_of_term(v.t) == "int" else Val.i(v.t)
        b = v.t.arg(0) if kind_of_term(v.t) == "bool" else Val.b(v.t)
        return z3.If(b, z3.IntVal(1), z3.IntVal(0))

    def as_num(self, v):
        """z3 arithmetic term (Int or Real)."""
        if isinstance(v, float): return z3.RealVal(repr(v))
        if isinstance(v, (int, bool)): return z3.IntVal(int(v))
        if isinstance(v, Sym):
            k = self.need(v, ("int", "flt", "bool"))
            if k == "flt":
                return v.t.arg(0) if kind_of_term(v.t) == "flt" else Val.r(v.t)
            return self.as_int(v)
        self.raise_(TypeError)

    def truthy(self, v):
        if isinstance(v, Sym):
            t = v.t
            k = self.kind(v)
            f = {
                "none": lambda: False, "bool": lambda: Val.b(t), "int": lambda: Val.i(t) != 0, "flt": lambda: Val.r(t) != 0,
                "str": lambda: Val.s(t) != z3.StringVal(""), "bytes": lambda: Val.y(t) != z3.StringVal(""),
                "list": lambda: l_len(Val.lid(t)) > 0, "dict": lambda: d_some(Val.did(t)), "obj": lambda: True,
            }
            if k is not None:
                return f[k]()
            if self.kinds.get(t.get_id()) is None:
                return z3.Or([z3.And(is_[kk](t), zb(f[kk]())) for kk in ("bool", "int", "flt", "str", "bytes", "list", "dict", "obj")])
        if isinstance(v, HObj):
            if v.d is not None:
                return self.truthy(v.d)
            for c in v.cls.__mro__:
                if "__bool__" in c.__dict__ or "__len__" in c.__dict__:
                    if c in (object,) or issubclass(v.cls, BaseException): break
                    raise Unsupported("user-defined truth value")
            return True
        if isinstance(v, HDict):
            if v.concrete_keys():
                return bool(v.live())
            if v.sure(): return True
            if not v.layers:
                b = v.base
                if b.decl().name() == "d_arr":
                    return d_some(b.arg(0))
            return d_some(self.did(v))
        if isinstance(v, (HList, HSet)):
            if v.coll is not None:
                return self.M.coll_nonempty(self, v.coll)
            return bool(v.items)
        if isinstance(v, DictView):
            return self.truthy(v.d)
        if isinstance(v, (BoundM, Model, Closure, IObj, Coro, Gen)):
            return True
        if v is POISON:
            raise Unsupported("poisoned value")
        return bool(v)

    def is_same(self, a, b):
        """`a is b`"""
        if isinstance(a, self.M.TypeOf): return self.M.typeof_is(self, a, b)
        if isinstance(b, self.M.TypeOf): return self.M.typeof_is(self, b, a)
        if b is None or a is None:
            if a is None and b is None: return True
            o = b if a is None else a
            return self.is_kind(o, "none") if isinstance(o, Sym) else False
        if isinstance(a, bool) or isinstance(b, bool):
            x, y = (a, b) if isinstance(b, bool) else (b, a)
            if isinstance(x, bool): return x is y
            if isinstance(x, Sym):
                return And(self.is_kind(x, "bool"), Val.b(x.t) == y)
            return False
        if isinstance(a, Sym) and isinstance(b, Sym):
            return a.t == b.t
        if isinstance(a, Sym) or isinstance(b, Sym):
            x, y = (a, b) if isinstance(a, Sym) else (b, a)
            if isinstance(y, (HObj, IObj)):
                return x.t == self.term(y)
            raise Unsupported("identity of symbolic values")
        return a is b

    def eq(self, a, b):
        """`a == b` as a formula or bool."""
        if isinstance(a, self.M.TypeOf): return self.M.typeof_is(self, a, b)
        if isinstance(b, self.M.TypeOf): return self.M.typeof_is(self, b, a)
        ca, cb = conc(a), conc(b)
        if ca and cb:
            return a == b
        if isinstance(a, (HObj, IObj)) or isinstance(b, (HObj, IObj)):
            if isinstance(a, HObj) and a.d is not None or isinstance(b, HObj) and b.d is not None:
                return self.deq(a, b)
            if a is b: return True
            if isinstance(a, IObj) and a.kind == "datetime" and isinstance(b, IObj):
                return self.M.dt_compare(self, ast.Eq(), a, b)
            if isinstance(a, Sym) or isinstance(b, Sym):
                return self.term(a) == self.term(b)
            for o in (a, b):
                if isinstance(o, HObj) and o.cls.__eq__ is not object.__eq__:
                    raise Unsupported("user-defined equality")
            ta, tb = getattr(a, "ghost", {}).get("term"), getattr(b, "ghost", {}).get("term")
            if ta is not None and tb is not None:
                return ta == tb
            return False
        if isinstance(a, HDict) or isinstance(b, HDict):
            return self.deq(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            return And(*[self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, (HList,)) or isinstance(b, (HList,)):
            if isinstance(a, HList) and isinstance(b, HList) and a.coll is None and b.coll is None:
                if len(a.items) != len(b.items): return False
                return And(*[self.eq(x, y) for x, y in zip(a.items, b.items)])
            for x, y in ((a, b), (b, a)):
                if isinstance(x, HList) and not isinstance(y, (HList, Sym)):
                    return False
            for x, y in ((a, b), (b, a)):
                if isinstance(x, HList) and isinstance(y, HList) and x.coll is not None and x.coll.src and x.coll.src[0] == "dict" and x.coll.src[2] == "keys" and y.coll is None:
                    d = x.coll.src[1]
                    if not y.items: return Not(self.truthy(d))
                    if len(y.items) == 1: return self.M.keys_are(self, d, y.items)
                    raise Unsupported("order of the keys of a dictionary")
            for x, y in ((a, b), (b, a)):
                if isinstance(x, HList) and x.coll is None and isinstance(y, Sym):
                    kf = self.is_kind(y, "list")
                    l = Val.lid(y.t)
                    return And(kf, l_len(l) == len(x.items), *[l_item(l, z3.IntVal(i)) == self.term(q) for i, q in enumerate(x.items)])
            return self.term(a) == self.term(b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, DictView) and x.what == "keys" and isinstance(y, (HSet, frozenset)) and self.M.conc_items(y):
                return self.M.keys_are(self, self.dict_of(x.d), self.M.to_concrete_list(self, y))
        if isinstance(a, (HSet,)) or isinstance(b, HSet):
            return self.M.set_eq(self, a, b)
        if isinstance(a, DictView) or isinstance(b, DictView):
            raise Unsupported("comparison of a dict view")
        if isinstance(a, Sym) or isinstance(b, Sym):
            ka, kb = self.kind(a), self.kind(b)
            num = ("bool", "int", "flt")
            if ka is not None and kb is not None:
                if ka == kb:
                    return self.term(a) == self.term(b)
                if ka in num and kb in num:
                    return self.numterm(a, ka) == self.numterm(b, kb)
                return False
            ta, tb = self.term(a), self.term(b)
            k = ka or kb
            if k is not None and k not in num:
                return ta == tb
            return z3.Or(ta == tb, z3.And(isnum(ta), isnum(tb), numval(ta) == numval(tb)))
        return a is b

    def numterm(self, v, k):
        if not isinstance(v, Sym):
            return z3.RealVal(repr(float(v))) if k == "flt" else z3.RealVal(int(v))
        if k == "flt": return Val.r(v.t)
        if k == "int": return z3.ToReal(Val.i(v.t))
        return z3.If(Val.b(v.t), z3.RealVal(1), z3.RealVal(0))

    def deq(self, a, b):
        ka, kb = self.kind(a), self.kind(b)
        if ka is not None and kb is not None and (ka != "dict" or kb != "dict"):
            return False
        if ka == kb == "dict":
            da, db = self.dict_of(a), self.dict_of(b)
            if da.concrete_keys() and db.concrete_keys():
                la, lb = da.live(), db.live()
                if set(la) != set(lb): return False
                return And(*[self.eq(la[k], lb[k]) for k in la])
        return self.term(a) == self.term(b)

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq): return self.eq(a, b)
        if isinstance(op, ast.NotEq): return Not(self.eq(a, b))
        if isinstance(op, ast.Is): return self.is_same(a, b)
        if isinstance(op, ast.IsNot): return Not(self.is_same(a, b))
        if isinstance(op, ast.In): return self.M.contains(self, b, a)
        if isinstance(op, ast.NotIn): return Not(self.M.contains(self, b, a))
        if conc(a) and conc(b):
            try:
                return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
            except TypeError:
                self.raise_(TypeError)
        if isinstance(a, IObj) or isinstance(b, IObj):
            return self.M.dt_compare(self, op, a, b)
        if isinstance(a, HSet) or isinstance(b, HSet) or isinstance(a, frozenset) or isinstance(b, frozenset):
            return self.M.set_compare(self, op, a, b)
        ka, kb = self.kind(a), self.kind(b)
        if "str" in (ka, kb) or "bytes" in (ka, kb):
            k = "str" if "str" in (ka, kb) else "bytes"
            self.need(a, (k,)); self.need(b, (k,))
            x, y = self.str_t(a), self.str_t(b)
        else:
            x, y = self.as_num(a), self.as_num(b)
        return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: y < x, ast.GtE: lambda: y <= x}[type(op)]()

    def binop(self, op, a, b):
        return self.M.binop(self, op, a, b)

    # =============================== attributes ===============================
    def getattr(self, o, name, default=MISSING):
        try:
            return self._getattr(o, name)
        except PyRaise as e:
            if default is not MISSING and issubclass(self.exc_class(e.exc), AttributeError):
                return default
            raise

    def _getattr(self, o, name):
        if isinstance(o, HObj):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Lazy):
                    z = v
                    v = z.make(self)
                    def undo(): o.attrs[name] = z
                    self.journal.append(("fn", undo, "lazy", o, name, v))
                    o.attrs[name] = v
                return v
            if name == "__class__": return o.cls
            if name == "__dict__": raise Unsupported("__dict__")
            if o.abstract and not name.startswith("__"):
                v = self.M.abstract_attr(self, o, name)
                if v is not MISSING:
                    return v
            return self.class_attr(o.cls, name, o, o.cls)
        if isinstance(o, SuperObj):
            mro = (o.recv if isinstance(o.recv, type) else o.recv.cls).__mro__
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.__dict__:
                    return self.bind_descr(c.__dict__[name], o.recv, o.recv if isinstance(o.recv, type) else o.recv.cls, name, c)
            self.raise_(AttributeError, name)
        if isinstance(o, type):
            return self.class_attr(o, name, None, o)
        if isinstance(o, (Sym, HDict, HList, HSet, str, bytes, int, float, tuple, DictView, IObj, Gen, Coro, frozenset, type(None), BoundM, Model, Closure)):
            return self.M.value_attr(self, o, name)
        # real object (module, function, enum member, library object)
        if not hasattr(o, name):
            self.raise_(AttributeError, name)
        v = getattr(o, name)
        return self.from_real(v, f"{getattr(o,'__name__',o)}.{name}")

    def class_attr(self, cls, name, inst, owner):
        for c in cls.__mro__:
            if name in c.__dict__:
                return self.bind_descr(c.__dict__[name], inst if inst is not None else None, cls, name, c)
        if inst is None:
            # metaclass attributes (__name__, __subclasses__, mro, ...)
            if hasattr(cls, name):
                v = getattr(cls, name)
                return self.from_real(v, name)
        if inst is not None and hasattr(cls, "__getattr__"):
            raise Unsupported("__getattr__")
        self.raise_(AttributeError, name)

    def bind_descr(self, v, inst, cls, name, owner):
        if isinstance(v, staticmethod):
            return v.__func__
        if isinstance(v, classmethod):
            return BoundM(v.__func__, cls, owner)
        if isinstance(v, property):
            if inst is None:
                return v
            return self.call_fn(v.fget, [inst], {}, owner)
        if isinstance(v, types.FunctionType):
            if inst is None or isinstance(inst, type) and inst is cls and not isinstance(v, classmethod):
                return FnOf(v, owner) if inst is None else v
            return BoundM(v, inst, owner)
        if isinstance(v, (types.MethodDescriptorType, types.WrapperDescriptorType, types.BuiltinFunctionType, types.ClassMethodDescriptorType)) and inst is not None:
            return self.M.builtin_method(self, inst, name, owner)
        if inst is None and isinstance(v, types.ClassMethodDescriptorType):
            return getattr(cls, name)
        if inst is None and isinstance(v, (types.MethodDescriptorType, types.WrapperDescriptorType)):
            return Model(f"{owner.__name__}.{name}", lambda E, a, k: E.call(E.M.builtin_method(E, a[0], name, owner), a[1:], k))
        if hasattr(type(v), "__get__") and not isinstance(v, (type, types.BuiltinFunctionType)) and not callable(v):
            if inst is None:
                return getattr(cls, name)
            raise Unsupported(f"descriptor {name}")
        return self.from_real(v, f"{owner.__name__}.{name}")

    def setattr(self, o, name, v):
        if isinstance(o, HObj):
            for c in o.cls.__mro__:
                d = c.__dict__.get(name)
                if isinstance(d, property):
                    if d.fset is None:
                        self.raise_(AttributeError, name)
                    return self.call_fn(d.fset, [o, v], {}, c)
            self.set_attr(o, name, v)
            return
        if isinstance(o, IObj):
            o2 = o.ghost.setdefault("set", {})
            old = o2.get(name, MISSING)
            def undo():
                if old is MISSING: o2.pop(name, None)
                else: o2[name] = old
            self.journal.append(("fn", undo, "attr", o, name, v))
            o2[name] = v
            return
        if isinstance(o, type) or isinstance(o, types.ModuleType):
            self.globmut.append((o, name))
            raise Unsupported(f"assignment to {o}.{name}")
        raise Unsupported(f"setattr on {o!r}")

    def getitem(self, o, k):
        return self.M.getitem(self, o, k)

    def setitem(self, o, k, v):
        return self.M.setitem(self, o, k, v)

    # =============================== calls ===============================
    def call(self, f, args, kw):
        self.depth += 1
        if self.depth > 120:
            raise Unsupported("call depth")
        try:
            return self._call(f, args, kw)
        finally:
            self.depth -= 1

    def _call(self, f, args, kw):
        if isinstance(f, FnOf):
            owner, f = f.owner, f.fn
            return self.call_fn(f, args, kw, owner)
        if isinstance(f, BoundM):
            return self.call_fn(f.fn, [f.recv] + list(args), kw, f.owner)
        if isinstance(f, Model):
            self.modelled.add(f.name)
            return f.fn(self, list(args), kw if isinstance(kw, SymKw) else dict(kw))
        if isinstance(f, Closure):
            return self.call_node(f.node, f.env, f.mod, f.defaults, f.kwdefaults, args, kw, f.name, None)
        if isinstance(f, HObj):
            for c in f.cls.__mro__:
                if "__call__" in c.__dict__:
                    return self.call_fn(c.__dict__["__call__"], [f] + list(args), kw, c)
            self.raise_(TypeError, "not callable")
        if isinstance(f, IObj):
            return self.M.iface_call(self, f, "__call__", args, kw)
        if isinstance(f, type):
            return self.instantiate(f, args, kw)
        if isinstance(f, types.MethodType):
            m = self.M.lookup_model(f)
            if m is None and source.in_repo(f.__func__):
                return self.call_fn(f.__func__, [f.__self__] + list(args), kw, None)
        if isinstance(f, types.FunctionType):
            return self.call_fn(f, args, kw, None)
        if f is None or isinstance(f, (str, int, bytes, HDict, HList)):
            self.raise_(TypeError, "not callable")
        if isinstance(f, Sym):
            raise Unsupported("call of a symbolic value")
        return self.call_native(f, args, kw)

    def call_native(self, f, args, kw):
        m = self.M.lookup_model(f)
        if m is not None:
            self.modelled.add(getattr(f, "__qualname__", str(f)))
            return m(self, list(args), kw if isinstance(kw, SymKw) else dict(kw))
        if isinstance(kw, SymKw):
            raise Unsupported(f"native call {f} with symbolic keywords")
        if all(conc_deep(a) for a in args) and all(conc_deep(a) for a in kw.values()):
            if not self.M.native_ok(f):
                raise Unsupported(f"native call {f}")
            try:
                r = f(*[to_native(a) for a in args], **{k: to_native(a) for k, a in kw.items()})
            except (Unsupported, PathEnd):
                raise
            except Exception as e:
                raise PyRaise(e)
            return self.from_native(r)
        raise Unsupported(f"call of {getattr(f,'__module__','')}.{getattr(f,'__qualname__',f)} with symbolic arguments")

    def from_native(self, r):
        if type(r) is dict:
            return HDict(layers=[(k, self.from_native(v)) for k, v in r.items()])
        if type(r) is list:
            return HList([self.from_native(v) for v in r])
        if type(r) is set:
            return HSet([self.from_native(v) for v in r])
        if type(r) is tuple:
            return tuple(self.from_native(v) for v in r)
        return r

    def instantiate(self, cls, args, kw):
        c = self.contract_for(cls)
        if c is not None:
            r = self.apply_contract(c, args, kw)
            if r is not MISSING:
                return r
        m = self.M.lookup_model(cls)
        if m is not None:
            self.modelled.add(getattr(cls, "__qualname__", str(cls)))
            return m(self, list(args), kw if isinstance(kw, SymKw) else dict(kw))
        if not (getattr(cls, "__module__", "") or "").startswith("psion") and not issubclass(cls, BaseException):
            return self.call_native(cls, args, kw)
        if isinstance(cls, type) and issubclass(cls, __import__("enum").Enum):
            return self.call_native(cls, args, kw)
        return self.construct(cls, args, kw)

    def construct(self, cls, args, kw):
        """Allocate an instance and run its constructor body."""
        if issubclass(cls, str):
            if len(args) < 1:
                args = [kw.get("name", "")] if not isinstance(kw, SymKw) else [""]
            return self.M.to_str(self, args[0])
        if issubclass(cls, (int, float, bytes, tuple, list, set)):
            raise Unsupported(f"instance of {cls}")
        if getattr(cls, "__abstractmethods__", None):
            self.raise_(TypeError, "abstract class")
        new = next((c.__dict__["__new__"] for c in cls.__mro__ if "__new__" in c.__dict__), None)
        if isinstance(new, staticmethod) and source.in_repo(new.__func__):
            raise Unsupported("__new__")
        o = HObj(cls)
        if issubclass(cls, dict):
            o.d = HDict()
        for c in cls.__mro__:
            if "__init__" in c.__dict__:
                init = c.__dict__["__init__"]
                if isinstance(init, types.FunctionType):
                    if hasattr(c, "__dataclass_fields__") and not source.in_repo(init):
                        self.M.dataclass_init(self, c, o, args, kw)
                    else:
                        self.call_fn(init, [o] + list(args), kw, c)
                else:
                    self.call(self.M.builtin_method(self, o, "__init__", c), args, kw)
                break
        return o

    # contracts ---------------------------------------------------------------
    verifying = None

    def contract_for(self, fn):
        c = self.contracts.get(fn)
        if c is None or c.name in self.disabled or c.name in self.skip or fn is self.verifying or self.no_contracts:
            return None
        return c

    no_contracts = False
    skip = ()

    def apply_contract(self, c, args, kw):
        try:
            r = c.apply(self, list(args), kw)
        except NotApplicable:
            return MISSING
        self.used_contracts.add(c.name)
        return r

    def call_fn(self, fn, args, kw, owner):
        """Call a real function object."""
        if not isinstance(fn, types.FunctionType):
            if isinstance(fn, (Closure,)):
                return self.call_node(fn.node, fn.env, fn.mod, fn.defaults, fn.kwdefaults, args, kw, fn.name, owner, first=args[0] if args else None)
            return self.call(fn, args, kw)
        c = self.contract_for(fn)
        if c is not None:
            r = self.apply_contract(c, args, kw)
            if r is not MISSING:
                return r
        m = self.M.lookup_model(fn)
        if m is not None:
            self.modelled.add(fn.__qualname__)
            return m(self, list(args), kw if isinstance(kw, SymKw) else dict(kw))
        if not source.in_repo(fn):
            return self.call_native(fn, args, kw)
        node = source.node_of(fn)
        if node is None:
            raise Unsupported(f"no source for {fn.__qualname__}")
        self.inlined.add(f"{fn.__module__}.{fn.__qualname__}")
        env0 = None
        if fn.__closure__:
            env0 = Env(mod=fn.__globals__)
            for nm, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                if nm == "__class__":
                    owner = owner or cell.cell_contents
                    continue
                env0.vars[nm] = self.from_real(cell.cell_contents, nm)
        if owner is None and fn.__code__.co_freevars and "__class__" in fn.__code__.co_freevars:
            owner = fn.__closure__[fn.__code__.co_freevars.index("__class__")].cell_contents
        defaults = [self.from_real(d) for d in (fn.__defaults__ or ())]
        kwd = {k: self.from_real(v) for k, v in (fn.__kwdefaults__ or {}).items()}
        return self.call_node(node, env0, fn.__globals__, defaults, kwd, args, kw, fn.__qualname__, owner, first=args[0] if args else None)

    def call_node(self, node, parent, mod, defaults, kwdefaults, args, kw, name, owner, first=None):
        env = Env(parent=parent, mod=mod, names=source.locals_of(node), fn=name)
        env.cls, env.first = owner, first
        self.bind_args(node, env, defaults, kwdefaults, args, kw, name)
        if isinstance(node, ast.Lambda):
            return self.ev(node.body, env)
        isgen = source.is_generator(node)
        isasync = isinstance(node, ast.AsyncFunctionDef)
        if isgen:
            def run(cb):
                env.on_yield = cb
                try:
                    self.exec_block(node.body, env)
                except _Ret:
                    pass
                except _StopGen as s:
                    raise s.inner
            return Gen(run, name)
        def body():
            try:
                self.exec_block(node.body, env)
            except _Ret as r:
                return r.v
            return None
        if isasync:
            return Coro(body, name)
        return body()

    def _none_default(self, node, name, defaults, kwdefaults):
        a = node.args
        pos = a.posonlyargs + a.args
        d = dict(zip([p.arg for p in pos[len(pos) - len(defaults):]], defaults)) if defaults else {}
        d.update(kwdefaults)
        return name in d and d[name] is None

    def bind_args(self, node, env, defaults, kwdefaults, args, kw, name):
        a = node.args
        pos = a.posonlyargs + a.args
        args = list(args)
        symkw = kw if isinstance(kw, SymKw) else None
        kw = dict(symkw.kw) if symkw else dict(kw)
        vals = {}
        if len(args) > len(pos) and not a.vararg:
            self.raise_(TypeError, f"{name}() takes too many arguments")
        for p, v in zip(pos, args):
            vals[p.arg] = v
        if a.vararg:
            vals[a.vararg.arg] = tuple(args[len(pos):])
        ponly = {p.arg for p in a.posonlyargs}
        for p in a.args + a.kwonlyargs:
            if p.arg in kw:
                if p.arg in vals:
                    self.raise_(TypeError, f"{name}() multiple values for {p.arg}")
                vals[p.arg] = kw.pop(p.arg)
        rest = HDict()
        if symkw is not None:
            d = symkw.d
            taken = []
            for p in a.args + a.kwonlyargs:
                if p.arg in vals:
                    if self.M.dict_lookup(self, d, p.arg) is not MISSING: self.raise_(TypeError, f"{name}() multiple values for {p.arg}")
                    continue
                if self._none_default(node, p.arg, defaults, kwdefaults):
                    vals[p.arg] = self.M.dict_get(self, d, p.arg)
                    continue
                v = self.M.dict_lookup(self, d, p.arg)
                if v is not MISSING:
                    vals[p.arg] = v
                taken.append(p.arg)
            if a.kwarg is None:
                self.M.only_keys(self, d, [p.arg for p in a.args + a.kwonlyargs], name)
            rest = HDict(d.base, d.layers)
            for t in [p.arg for p in a.args + a.kwonlyargs]:
                rest.layers.append((t, MISSING))
        dpos = dict(zip([p.arg for p in pos[len(pos) - len(defaults):]], defaults)) if defaults else {}
        for p in pos:
            if p.arg not in vals:
                if p.arg in dpos:
                    vals[p.arg] = dpos[p.arg]
                else:
                    self.raise_(TypeError, f"{name}() missing argument {p.arg}")
        for p in a.kwonlyargs:
            if p.arg not in vals:
                if p.arg in kwdefaults:
                    vals[p.arg] = kwdefaults[p.arg]
                else:
                    self.raise_(TypeError, f"{name}() missing keyword {p.arg}")
        if a.kwarg:
            for k, v in kw.items():
                rest.layers.append((k, v))
            vals[a.kwarg.arg] = rest
        elif kw:
            self.raise_(TypeError, f"{name}() got unexpected keyword {sorted(kw)[0]}")
        env.vars.update(vals)


class SymKw:
    """Keyword arguments taken from a symbolic dictionary, plus explicit ones."""
    def __init__(self, d, kw): self.d, self.kw = d, kw
    def get(self, k, default=None): return self.kw.get(k, default)


class FnOf:
    """A function looked up on a class (unbound), remembering its owner."""
    def __init__(self, fn, owner): self.fn, self.owner = fn, owner


class NotApplicable(Exception):
    """The contract's precondition is not established at this call: inline the body instead."""


def conc(v):
    return v is None or isinstance(v, (bool, int, float, str, bytes, type, frozenset)) or (isinstance(v, tuple) and all(conc(x) for x in v)) or isinstance(v, types.FunctionType) or (not isinstance(v, (Sym, HBase, BoundM, Model, Closure, Coro, Gen, IObj, SuperObj, DictView, tuple, FnOf)) and v is not POISON and type(v).__name__ not in ('TypeOf', 'SymKw'))


def conc_deep(v):
    if isinstance(v, HList): return v.coll is None and all(conc_deep(x) for x in v.items)
    if isinstance(v, HSet): return v.coll is None and all(conc_deep(x) for x in v.items)
    if isinstance(v, HDict): return v.concrete_keys() and all(conc_deep(x) for x in v.live().values())
    if isinstance(v, tuple): return all(conc_deep(x) for x in v)
    return conc(v)


def to_native(v):
    if isinstance(v, HList): return [to_native(x) for x in v.items]
    if isinstance(v, HSet): return {to_native(x) for x in v.items}
    if isinstance(v, HDict): return {k: to_native(x) for k, x in v.live().items()}
    if isinstance(v, tuple): return tuple(to_native(x) for x in v)
    return v


def isnum(t): return z3.Or(Val.is_vbool(t), Val.is_vint(t), Val.is_vflt(t))
def numval(t): return z3.If(Val.is_vint(t), z3.ToReal(Val.i(t)), z3.If(Val.is_vbool(t), z3.If(Val.b(t), z3.RealVal(1), z3.RealVal(0)), Val.r(t)))


def coll_alts_ok(coll, gen):
    """Formula: the element at this binder exists (some alternative's condition holds); None if trivially so."""
    if any(c is True for c, _ in coll.alts):
        return None
    return z3.Or([coll.sub(c, gen) for c, _ in coll.alts])
