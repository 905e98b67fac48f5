"""The value universe of the verifier: one z3 datatype for every Python scalar, plus
identifiers for immutable views of lists, dictionaries and objects."""
from . import env
import z3

_V = z3.Datatype("Val")
_V.declare("none")
_V.declare("absent")                       # "no such key"; never a Python value
_V.declare("vbool", ("b", z3.BoolSort()))
_V.declare("vint", ("i", z3.IntSort()))
_V.declare("vflt", ("r", z3.RealSort()))
_V.declare("vstr", ("s", z3.StringSort()))
_V.declare("vbytes", ("y", z3.StringSort()))
_V.declare("vlist", ("lid", z3.IntSort()))
_V.declare("vdict", ("did", z3.IntSort()))
_V.declare("vobj", ("oid", z3.IntSort()))
Val = _V.create()
S, I, B, R = z3.StringSort(), z3.IntSort(), z3.BoolSort(), z3.RealSort()
ArrS = z3.ArraySort(Val, Val)

NONE, ABSENT_T = Val.none, Val.absent
is_ = {
    "none": Val.is_none, "absent": Val.is_absent, "bool": Val.is_vbool, "int": Val.is_vint,
    "flt": Val.is_vflt, "str": Val.is_vstr, "bytes": Val.is_vbytes, "list": Val.is_vlist,
    "dict": Val.is_vdict, "obj": Val.is_vobj,
}
CTORS = {"none": "none", "absent": "absent", "vbool": "bool", "vint": "int", "vflt": "flt", "vstr": "str",
         "vbytes": "bytes", "vlist": "list", "vdict": "dict", "vobj": "obj"}

_ufs = {}
def uf(name, *sorts):
    f = _ufs.get(name)
    if f is None:
        f = _ufs[name] = z3.Function(name, *sorts)
    return f

l_len = uf("l_len", I, I)
l_item = uf("l_item", I, I, Val)
l_has = uf("l_has", I, Val, B)
l_idx = uf("l_idx", I, Val, I)
d_arr = uf("d_arr", I, ArrS)
d_mk = uf("d_mk", ArrS, I)
d_some = uf("d_some", I, B)                # non-empty
d_wit = uf("d_wit", I, Val)
pystr = uf("pystr", Val, S)
EMPTY_ARR = z3.K(Val, Val.absent)


def kind_of_term(t):
    """Syntactic kind of a Val term, or None."""
    if z3.is_app(t):
        return CTORS.get(t.decl().name())
    return None


def sval(s):
    """Python str -> z3 string (one z3 character per code point)."""
    out = []
    for ch in s:
        o = ord(ch)
        if 32 <= o < 127 and ch != "\\":
            out.append(ch)
        else:
            out.append("\\u{%x}" % o)
    return z3.StringVal("".join(out))


def bval(b):
    return sval(b.decode("latin-1"))


def z3str(t):
    """z3 string literal -> Python str."""
    s = t.as_string()
    out, i = [], 0
    while i < len(s):
        if s.startswith("\\u{", i):
            j = s.index("}", i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def axioms():
    """Background theory of lists and dictionaries (quantified; used in final obligations only)."""
    l, j, x, d, k = z3.Int("l!"), z3.Int("j!"), z3.Const("x!", Val), z3.Int("d!"), z3.Const("k!", Val)
    return [
        z3.ForAll([l], l_len(l) >= 0, patterns=[l_len(l)]),
        z3.ForAll([l, j], z3.Implies(z3.And(0 <= j, j < l_len(l)), l_has(l, l_item(l, j))), patterns=[l_item(l, j)]),
        z3.ForAll([l, x], z3.Implies(l_has(l, x), z3.And(0 <= l_idx(l, x), l_idx(l, x) < l_len(l), l_item(l, l_idx(l, x)) == x)), patterns=[l_has(l, x)]),
        z3.ForAll([d, k], z3.Implies(z3.Select(d_arr(d), k) != Val.absent, d_some(d)), patterns=[z3.Select(d_arr(d), k)]),
        z3.ForAll([d], z3.Implies(d_some(d), z3.And(z3.Select(d_arr(d), d_wit(d)) != Val.absent, d_wit(d) != Val.absent, z3.Not(Val.is_vdict(d_wit(d))), z3.Not(Val.is_vlist(d_wit(d))))), patterns=[d_some(d)]),
    ]
