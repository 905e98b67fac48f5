"""Replay harness: concrete cases against the real code with reference oracles. A case is plain data (repr / literal_eval)."""
import ast, importlib, os, random, sys, time, traceback, warnings
from pv import env
warnings.simplefilter("ignore")


def dump(c): return repr(c)
def load(s): return ast.literal_eval(s)

def mod(prop): return importlib.import_module("harness.h" + prop[1:])

def judge_one(prop, case):
    r = mod(prop).judge(case)
    if not r: return None
    return r if isinstance(r, str) else str(r)

def judge_all(prop, pairs):
    """Counterexamples of the verifier (proof name, inputs) -> violations confirmed on the real code."""
    m = mod(prop)
    out = []
    for name, inputs in pairs:
        try: cases = list(m.from_model(name, inputs)) if hasattr(m, "from_model") else []
        except Exception: cases = []
        for c in cases:
            try: r = m.judge(c)
            except Exception: continue
            if r: out.append(dict(case=dump(c), what=str(r), source=f"verifier counterexample of {name}"))
    return dict(violations=out)

def run(prop, seed, seconds, hints, tier):
    try: m = mod(prop)
    except ModuleNotFoundError: return dict(violations=[], errors=[], cases=0, distinct=0, rule="none", samples=[])
    g = G(seed, hints, tier)
    t0 = time.time()
    viol, errors, n, seen, samples, tags = [], [], 0, set(), [], set()
    for c in m.cases(g):
        if time.time() - t0 > seconds: break
        n += 1
        k = dump(c)
        seen.add(hash(k))
        if len(samples) < 3 and n % 7 == 1: samples.append(k[:400])
        try:
            r = m.judge(c)
        except Exception as e:
            if len(errors) < 5: errors.append(f"{type(e).__name__}: {e} on {k[:200]} {traceback.format_exc()[-700:]}")
            continue
        if r:
            # confirm: the same case again, from its textual form
            try: r2 = m.judge(load(k))
            except Exception: r2 = None
            if r2 or getattr(m, "STATEFUL", False):
                viol.append(dict(case=k, what=str(r)))
                if len(viol) >= 3: break
    return dict(violations=viol, errors=errors, cases=n, distinct=len(seen), rule=getattr(m, "RULE", ""), samples=samples, wall=round(time.time() - t0, 2))


_lits = None
def literals():
    """String, bytes and integer constants of the current source: candidate special values."""
    global _lits
    if _lits is None:
        s, b, i = set(), set(), set()
        for root, _, files in os.walk(os.path.join(env.SRC, "psion")):
            for f in files:
                if not f.endswith(".py"): continue
                try: t = ast.parse(open(os.path.join(root, f), encoding="utf-8").read())
                except Exception: continue
                docs = set()
                for n in ast.walk(t):
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                        docs.add(id(n.body[0].value))
                for n in ast.walk(t):
                    if isinstance(n, ast.Constant) and id(n) not in docs:
                        v = n.value
                        if isinstance(v, str) and len(v) <= 60: s.add(v)
                        elif isinstance(v, bytes) and len(v) <= 60: b.add(v)
                        elif isinstance(v, int) and not isinstance(v, bool): i.add(v)
        _lits = (sorted(s), sorted(b), sorted(i))
    return _lits


SPECIAL = ["", " ", "a", "0", "null", "none", "None", "é", "€uro", "日本", "\U0001f600", "a b", " a", "a ", "a:b", ":", "::", "=", "==", "a=b", "&", "a&b", "?", "#", "%", "%41", "+", "/", "\\", "\"", "'", "\n", "\r\n", "\t", "\x00", "\x7f", "\x85", "\u2028", "ſ", "İ", "ß", "a.b", ".", "..", "-", "_", "é:ü", "x" * 42, "x" * 43, "x" * 128, "x" * 129, "true", "1"]


class G:
    def __init__(self, seed, hints=(), tier="quick"):
        self.r = random.Random(seed)
        self.tier = tier
        self.hints = list(hints)
        self.hs = [h for h in self.hints if isinstance(h, str)]
        self.hi = [h for h in self.hints if isinstance(h, int) and not isinstance(h, bool)]
        self.hb = [h for h in self.hints if isinstance(h, bytes)]
        self.ls, self.lb, self.li = literals()

    def one(self, *xs): return self.r.choice(xs[0] if len(xs) == 1 else xs)
    def maybe(self, p=0.5): return self.r.random() < p
    def int(self, a, b): return self.r.randint(a, b)

    def text(self, nonempty=False):
        for _ in range(20):
            k = self.r.random()
            if self.hs and k < 0.3: t = self.one(self.hs)
            elif k < 0.45: t = self.one(self.ls) if self.ls else "x"
            elif k < 0.7: t = self.one(SPECIAL)
            elif k < 0.8: t = self.one(SPECIAL) + self.one(SPECIAL)
            elif k < 0.9: t = "".join(self.r.choice("abcXYZ019-_. :") for _ in range(self.int(1, 12)))
            else: t = "".join(chr(self.one(self.int(1, 127), self.int(128, 0x7ff), self.int(0x800, 0xd7ff), self.int(0xe000, 0xffff), self.int(0x10000, 0x10ffff))) for _ in range(self.int(1, 6)))
            if t or not nonempty: return t
        return "x"

    def word(self):
        return "".join(self.r.choice("abcdefghijkmnpqrstuvwxyz0123456789") for _ in range(self.int(3, 10)))

    def bytes_(self, n=None):
        if n is not None: return self.r.randbytes(n)
        k = self.r.random()
        if self.hb and k < 0.3: return self.one(self.hb)
        if k < 0.3: return self.text().encode()
        if k < 0.4: return self.one(b"", b"\x00", b"\xff", b"\x00\x00", b"\xfb\xff\xfe", b"\x80", b"=", b".", b"\xff" * 3)
        return self.r.randbytes(self.int(0, 40))

    def integer(self):
        k = self.r.random()
        if self.hi and k < 0.3: return self.one(self.hi)
        if k < 0.45: return self.one(0, 1, -1, 2, 255, 256, 65535, 65536, 127, 128, 2 ** 31, 2 ** 63, 2 ** 64, 10 ** 30, -5)
        if k < 0.6 and self.li: return self.one(self.li) + self.int(-1, 1)
        if k < 0.8: return self.int(-10, 10 ** 6)
        return self.r.getrandbits(self.int(1, 600))

    def json(self, depth=0):
        k = self.int(0, 9 if depth < 2 else 6)
        if k == 0: return None
        if k == 1: return self.maybe()
        if k in (2, 3): return self.integer()
        if k == 4: return self.one(0.5, -1.25, 1e10, 0.0)
        if k in (5, 6): return self.text()
        if k in (7,): return [self.json(depth + 1) for _ in range(self.int(0, 3))]
        return {self.text(): self.json(depth + 1) for _ in range(self.int(0, 3))}


def outcome(f, *a, **k):
    """('ok', value) or ('raise', exception)."""
    try: return "ok", f(*a, **k)
    except Exception as e: return "raise", e


def repeat(gen):
    while True:
        yield from gen()


def name(e): return type(e).__name__
