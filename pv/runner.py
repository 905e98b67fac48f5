"""Runs the proofs, the contract checks they rest on and the replay harness of one property, and gives the verdict."""
import ast, hashlib, importlib, json, multiprocessing as mp, os, random, resource, signal, subprocess, sys, time, traceback
from . import env

ctx = mp.get_context("fork")
MEM = 6 << 30


def _child(conn, fn, args):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
        sys.setrecursionlimit(6000)
        conn.send(("ok", fn(*args)))
    except BaseException as e:
        try: conn.send(("err", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}"))
        except Exception: pass
    finally:
        conn.close()
        os._exit(0)


TRACE = os.environ.get("PV_TRACE")
LIMIT = None        # when the whole run has to be over

def run_tasks(tasks, jobs=8, seen=None):
    """tasks: [(key, fn, args, timeout)] -> {key: ('ok'|'err'|'timeout', value)}; each in its own process."""
    out, running, todo, began = {}, {}, list(tasks), {}
    while todo or running:
        if LIMIT is not None and time.time() > LIMIT:
            for key, *_ in todo: out[key] = ("timeout", None)
            todo = []
        while todo and len(running) < jobs:
            key, fn, args, to = todo.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(w, fn, args), daemon=True)
            p.start()
            w.close()
            running[key] = (p, r, time.time() + to)
            began[key] = time.time()
        done = []
        ready = mp.connection.wait([v[1] for v in running.values()], timeout=0.2)
        for key, (p, r, dl) in running.items():
            if r in ready:
                try: out[key] = r.recv()
                except (EOFError, OSError): out[key] = ("err", "the worker died")
                done.append(key)
                if seen: seen(key, out[key])
            elif time.time() > dl or LIMIT is not None and time.time() > LIMIT:
                out[key] = ("timeout", None)
                done.append(key)
        for key in done:
            p, r, _ = running.pop(key)
            if TRACE: print(f"{time.time() - began[key]:7.1f} s {out[key][0]} {out[key][1]['status'] if isinstance(out[key][1], dict) and 'status' in out[key][1] else ''} {key}", file=sys.stderr, flush=True)
            p.kill(); p.join(); r.close()
    return out


# ------------------------------------------------------------------ tasks
def t_inlined(prop, name, ms):
    """The same proof with every function inlined."""
    from . import verify
    m = importlib.import_module("props.p" + prop[1:])
    p = next(q for q in m.proofs() if q.name == name)
    return verify.run_proof(p, ms=ms, no_contracts=True)

def t_proof(prop, name, disabled, ms, smt):
    from . import verify
    m = importlib.import_module("props.p" + prop[1:])
    p = next(q for q in m.proofs() if q.name == name)
    return verify.run_proof(p, disabled=disabled, ms=ms, want_smt=smt)

def t_names(prop):
    try: m = importlib.import_module("props.p" + prop[1:])
    except ModuleNotFoundError: return []
    return [(p.name, p.budget) for p in m.proofs()]

def t_contract(name, part, disabled, ms):
    from . import verify, contracts
    c = next(c for c in contracts.all_contracts() if c.name == name)
    return verify.run_proof(c.proof(part), disabled=set(disabled) - {name}, ms=ms)

def t_parts():
    from . import contracts
    return {c.name: c.parts() for c in contracts.all_contracts()}

def run_contracts(names, disabled, ms, parts):
    """{name: result}: a contract holds when all the cases its body is checked in do."""
    o = run_tasks([((n, s), t_contract, (n, s, tuple(disabled), ms), 200) for n in sorted(names) for s in parts[n]])
    out = {}
    for n in names:
        rs = [unpack(o[(n, s)], f"contract {n}") for s in parts[n]]
        out[n] = rs[0] if len(rs) == 1 else merge("contract " + n, rs)
    return out

def merge(name, rs):
    bad = [r for r in rs if r["status"] != "proved"]
    m = dict(name=name, what="", status=bad[0]["status"] if bad else "proved", detail="; ".join(f"{r['name']}: {r['detail']}" for r in bad)[:800], cases=len(rs), failures=[f for r in rs for f in r["failures"]])
    for k in ("obligations", "discharged", "paths", "solver_s", "wall_s"): m[k] = round(sum(r[k] for r in rs), 3)
    for k in ("used", "inlined", "modelled", "assumptions", "covered"): m[k] = sorted({x for r in rs for x in r[k]})
    return m

def t_harness(prop, seed, seconds, hints, tier):
    from harness import core
    return core.run(prop, seed, seconds, hints, tier)

def t_judge(prop, cases):
    from harness import core
    return core.judge_all(prop, cases)


# ------------------------------------------------------------------ one property
def check(prop, tier, seed, log=print):
    t0 = time.time()
    thorough = tier == "thorough"
    global LIMIT
    LIMIT = None if thorough else t0 + 660
    ms = 30000 if thorough else None
    hsec = 150 if thorough else 20
    nh = 2
    names = run_tasks([("names", t_names, (prop,), 60)])["names"]
    if names[0] != "ok":
        log("engine: " + str(names[1])); names = ("ok", [])
    plan = names[1]
    parts = run_tasks([("p", t_parts, (), 60)])["p"][1] if plan else {}
    disabled = set()
    tasks = [(("h", i), t_harness, (prop, seed * 1000 + i, hsec, [], tier), hsec + 60) for i in range(nh)]
    tasks += [(("p", n), t_proof, (prop, n, (), ms, thorough), b * (6 if thorough else 1) + 60) for n, b in plan]
    concrete = []
    def seen(key, o):
        """A concrete violation decides the run: the proofs get two more minutes to name the obligation."""
        global LIMIT
        if key[0] == "h" and o[0] == "ok" and o[1]["violations"] and not concrete:
            concrete.append(1)
            if LIMIT is not None: LIMIT = min(LIMIT, time.time() + 120)
    out = run_tasks(tasks, seen=seen)
    proofs = {n: unpack(out[("p", n)], n) for n, _ in plan}
    harness = [out[("h", i)] for i in range(nh)]
    contracts_ = {}
    if concrete and LIMIT is not None: LIMIT = time.time() + 120
    for _ in range(4):
        need = set()
        for r in list(proofs.values()) + list(contracts_.values()):
            need |= set(r.get("used", ()))
        need -= set(contracts_)
        if need:
            contracts_.update(run_contracts(need, disabled, ms, parts))
        bad = {n for n, r in contracts_.items() if r["status"] != "proved"} - disabled
        if not bad and not need or concrete and not thorough: break
        if bad:
            disabled |= bad
            again = [n for n, r in proofs.items() if set(r.get("used", ())) & disabled]
            o = run_tasks([(n, t_proof, (prop, n, tuple(disabled), ms, thorough), dict(plan)[n] * 2 + 60) for n in again])
            for n in again: proofs[n] = unpack(o[n], n)
            cagain = [n for n, r in contracts_.items() if n not in disabled and set(r.get("used", ())) & disabled]
            contracts_.update(run_contracts(cagain, disabled, ms, parts))
    # ---- a proof that fails over contracts may fail for what the contracts leave open: decided again over the bodies
    again = [n for n, r in proofs.items() if r["failures"] and r.get("used")] if thorough or not concrete else []
    if again:
        o = run_tasks([(n, t_inlined, (prop, n, ms), dict(plan)[n] + 60) for n in again])
        for n in again:
            r = unpack(o[n], n)
            if r["status"] in ("proved", "refuted"): proofs[n] = r
    # ---- replay of counterexamples
    fails = [(r, f) for r in proofs.values() for f in r.get("failures", ())]
    hviol, herr, hstats = [], [], []
    for st, v in harness:
        if st == "ok":
            hviol += v["violations"]; hstats.append(v)
            if v["errors"]: herr += v["errors"]
        else: herr.append(f"harness {st}: {v}")
    if fails and not hviol:
        hints = [x for _, f in fails for x in atoms(f["inputs"])]
        cases = [(r["name"], f["inputs"]) for r, f in fails]
        if LIMIT is not None: LIMIT = max(LIMIT, time.time() + hsec + 40)
        o = run_tasks([("j", t_judge, (prop, cases), 60), ("h", t_harness, (prop, seed * 1000 + 77, hsec, hints, tier), hsec + 60)])
        for k in ("j", "h"):
            if o[k][0] == "ok":
                hviol += o[k][1]["violations"]
                if k == "h": hstats.append(o[k][1])
    cfails = [(r, f) for r in contracts_.values() for f in r.get("failures", ())]
    cv = None
    if thorough:
        cv = second_opinion(proofs)
    return dict(prop=prop, tier=tier, seed=seed, proofs=proofs, contracts=contracts_, disabled=sorted(disabled), hviol=hviol, herr=herr, hstats=hstats, fails=fails, cfails=cfails, wall=time.time() - t0, cvc5=cv)


def unpack(o, name):
    if o[0] == "ok": return o[1]
    return dict(name=name, what="", status="timeout" if o[0] == "timeout" else "unsupported", detail=str(o[1])[-600:], obligations=0, discharged=0, paths=0, failures=[], used=[], inlined=[], modelled=[], assumptions=[], solver_s=0.0, covered=[], wall_s=0.0)


def atoms(x, depth=0):
    out = []
    if isinstance(x, dict):
        for k, v in x.items(): out += atoms(k, depth + 1) + atoms(v, depth + 1)
        if depth: out.append(x)
    elif isinstance(x, (list, tuple)):
        for v in x: out += atoms(v, depth + 1)
        if depth: out.append(list(x))
    elif isinstance(x, (str, bytes, int, float)) : out.append(x)
    return out


# ------------------------------------------------------------------ cvc5 as a second back end
def t_cvc5(text, ms):
    import cvc5
    s = cvc5.Solver()
    s.setOption("tlimit-per", str(ms))
    s.setOption("strings-exp", "true")
    p = cvc5.InputParser(s)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
    sm = p.getSymbolManager()
    res = None
    while True:
        c = p.nextCommand()
        if c.isNull(): break
        r = c.invoke(s, sm)
        if str(r).strip() in ("sat", "unsat", "unknown"): res = str(r).strip()
    return res

def second_opinion(proofs):
    tasks = []
    for r in proofs.values():
        for i, (label, text) in enumerate(r.pop("smt", ())[:60]):
            tasks.append(((r["name"], i, label), t_cvc5, ("(set-logic ALL)\n" + text, 20000), 40))
    out = run_tasks(tasks[:400])
    n = dict(queries=len(out), unsat=0, sat=0, unknown=0, error=0, disagreements=[])
    for k, (st, v) in out.items():
        if st == "ok" and v in ("unsat", "sat", "unknown"):
            n[v] += 1
            if v == "sat": n["disagreements"].append(str(k))
        else: n["error"] += 1
    return n
