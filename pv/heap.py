"""Heap objects of the symbolic interpreter."""
from .vals import *

class Unsupported(Exception):
    """The construct is outside the verifier's reach."""

class PyRaise(Exception):
    """A Python exception raised by the interpreted program."""
    def __init__(self, exc):
        self.exc = exc

class _Missing:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n
MISSING = _Missing("MISSING")
POISON = _Missing("POISON")


class Sym:
    """A symbolic scalar / immutable value: a z3 term of sort Val."""
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __repr__(self): return f"Sym({self.t})"


_stamp = [0]

class HBase:
    glob = None      # the real (class- or module-level) container this mirrors
    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        _stamp[0] += 1
        o.stamp = _stamp[0]      # allocation order: tells objects allocated inside a loop body from older ones
        return o

def now_stamp():
    return _stamp[0]


class HObj(HBase):
    """Instance of a psion class built during symbolic execution."""
    def __init__(self, cls):
        self.cls, self.attrs, self.d, self.ghost, self.abstract = cls, {}, None, {}, False
    def __repr__(self): return f"<{self.cls.__name__}>"


class HDict(HBase):
    """Dictionary: an optional symbolic base (array Val->Val) under a list of writes."""
    def __init__(self, base=None, layers=None):
        self.base, self.layers = base, list(layers or [])
        self.fulldict_cls = None
    def concrete_keys(self):
        return self.base is None and all(_is_const_key(k) for k, _ in self.layers)
    def sure(self):
        """Some entry is there for certain."""
        if not self.layers: return False
        if self.layers[-1][1] is not MISSING: return True
        return all(_is_const_key(k) for k, _ in self.layers) and any(v is not MISSING for v in dict(self.layers).values())
    def live(self):
        """Ordered {key: value} for a dictionary with concrete keys."""
        out = {}
        for k, v in self.layers:
            if v is MISSING:
                out.pop(k, None)
            else:
                out[k] = v
        return out


def _is_const_key(k):
    return isinstance(k, (str, bytes, int, float, bool, type(None))) or (isinstance(k, tuple) and all(map(_is_const_key, k))) or isinstance(k, type)


class HList(HBase):
    def __init__(self, items=None, coll=None):
        self.items, self.coll = list(items or []), coll


class HSet(HBase):
    def __init__(self, items=None, coll=None):
        self.items, self.coll = list(items or []), coll


class Coll:
    """Symbolic collection: elements alts[i].value(v) for binder v with guard(v) and alts[i].cond(v).
    `ordered`: element order follows the binder (an index) and, if `dense`, element v sits at index v."""
    def __init__(self, var, guard, alts, length=None, src=None):
        self.var, self.guard, self.alts, self.length, self.src = var, guard, alts, length, src
    def sub(self, f, v):
        return z3.substitute(f, (self.var, v)) if z3.is_expr(f) else f
    def dense(self):
        return self.length is not None


class BoundM:
    """A real function bound to an interpreted receiver."""
    def __init__(self, fn, recv, owner=None): self.fn, self.recv, self.owner = fn, recv, owner
    def __repr__(self): return f"<bound {getattr(self.fn,'__qualname__',self.fn)}>"


class Model:
    """A modelled callable: fn(E, args, kwargs)."""
    def __init__(self, name, fn): self.name, self.fn = name, fn
    def __repr__(self): return f"<model {self.name}>"


class Closure:
    def __init__(self, node, env, mod, defaults, kwdefaults, name, owner=None):
        self.node, self.env, self.mod, self.defaults, self.kwdefaults, self.name, self.owner = node, env, mod, defaults, kwdefaults, name, owner
    def __repr__(self): return f"<closure {self.name}>"


class Coro:
    def __init__(self, thunk, name=""): self.thunk, self.name = thunk, name


class Gen:
    """A generator: run(cb) executes the body, calling cb(value) at each yield."""
    def __init__(self, run, name=""): self.run, self.name, self.used = run, name, False


class IObj:
    """An object known only through its interface (adapter, client, clock value, ...)."""
    def __init__(self, kind, **ghost):
        self.kind, self.ghost, self.memo = kind, ghost, {}
    def __repr__(self): return f"<{self.kind}>"


class Lazy:
    """An attribute whose value is settled (with the case splits that takes) when it is first read."""
    def __init__(self, make): self.make = make


class SuperObj:
    def __init__(self, cls, recv): self.cls, self.recv = cls, recv


class DictView:
    def __init__(self, d, what): self.d, self.what = d, what
