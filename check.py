#!/opt/venv/bin/python -B
"""Decides one property: check.py C01 [--tier quick|thorough], or check.py --replay FILE."""
import os, sys
os.environ.setdefault("TZ", "UTC")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pv import env, runner
import hashlib, json, time

TRUSTED = [
    "the symbolic interpreter /verif/pv (interp.py, engine.py, models.py) as the semantics of the Python subset psion is written in",
    "z3 as the back end discharging the obligations (the thorough tier re-checks them with cvc5)",
    "the models of the standard library and of the cryptography package in /verif/pv/libmodels.py (listed under modelled_library)",
    "Python integers as mathematical integers, text as sequences of code points without lone surrogates, floats as reals",
]

def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith(f"finding: property={prop} "): out.append(l.strip()[len("finding: "):])
    return out

def plain(x):
    """JSON-able: keys as text."""
    if isinstance(x, dict): return {k if isinstance(k, str) else repr(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [plain(v) for v in x]
    return x

def write_replay(prop, data):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    text = json.dumps(plain(data), indent=1, default=repr)
    p = os.path.join(d, f"{prop}-{hashlib.sha256(text.encode()).hexdigest()[:12]}.json")
    open(p, "w").write(text)
    return p

def replay(path):
    from harness import core
    d = json.load(open(path))
    if not d.get("case"):
        print("no concrete input: the failed obligation is", json.dumps(d.get("obligation"), indent=1)[:4000])
        return 1
    r = core.judge_one(d["property"], core.load(d["case"]))
    print("VIOLATION reproduced:" if r else "not reproduced", r or "")
    return 1 if r else 0

def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay": return replay(a[1])
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    t0 = time.time()
    R = runner.check(prop, tier, seed)
    P = list(R["proofs"].values())
    C = [c for n, c in R["contracts"].items()]
    nviol = 0
    lines = []
    kf = known(prop)
    seen_sites = set()
    for v in R["hviol"]:
        tag = v.get("tag", "")
        hit = [k for k in kf if tag and f"[{tag}]" in k]
        if hit:
            if tag not in seen_sites:
                print("KNOWN-FINDING: " + hit[0]); seen_sites.add(tag)
            continue
        nviol += 1
        if len(lines) < 3:
            lines.append(f"VIOLATION property={prop} replay=" + write_replay(prop, dict(property=prop, case=v["case"], what=v["what"], source=v.get("source", "harness"),
                     failed_obligations=[dict(proof=r["name"], label=f["label"], path=f["path"][:12]) for r, f in R["fails"] + R["cfails"]][:6], how="/verif/check.py --replay <this file>")))
    if not nviol:
        for r, f in R["fails"]:
            if f["status"] != "sat": continue
            nviol += 1
            if len(lines) < 3:
                lines.append(f"VIOLATION property={prop} replay=" + write_replay(prop, dict(property=prop, case=None, obligation=dict(proof=r["name"], what=r["what"], **f))) + " no-failing-input-found")
    obl = sum(r["obligations"] for r in P + C); dis = sum(r["discharged"] for r in P + C)
    decided = bool(P) and all(r["status"] == "proved" for r in P)
    level = "proof" if P else "exploration"
    ev = sum(h["cases"] for h in R["hstats"]); dn = sum(h["distinct"] for h in R["hstats"])
    bad = [dict(name=r["name"], status=r["status"], detail=r["detail"][:300], failures=[(f["label"], f["status"]) for f in r["failures"]]) for r in P + C if r["status"] != "proved"]
    cov = dict(obligations=obl, discharged=dis, checker_cmd=f"/verif/check.py {prop} --tier {tier}", trusted_base=TRUSTED,
        verdict="proved" if decided else ("violated" if nviol else "not decided by the verifier on this tree; bounded harness only"),
        backend="z3 " + z3v() + (f"; cvc5 second opinion {json.dumps(R['cvc5'])}" if R["cvc5"] else ""),
        proofs=[dict(name=r["name"], what=r["what"], status=r["status"], obligations=r["obligations"], discharged=r["discharged"], paths=r["paths"], solver_s=round(r["solver_s"], 2), wall_s=r["wall_s"]) for r in P],
        contracts=[dict(function=n, status=c["status"], obligations=c["obligations"], discharged=c["discharged"], paths=c["paths"], solver_s=round(c["solver_s"], 2)) for n, c in sorted(R["contracts"].items())],
        functions_executed_from_source=sorted({f for r in P + C for f in r["inlined"]}), modelled_library=sorted({f for r in P + C for f in r["modelled"]}),
        solver_s=round(sum(r["solver_s"] for r in P + C), 2), undecided=bad,
        evaluations=ev, distinct_nontrivial=dn, rule="replay harness: " + "; ".join(sorted({h["rule"] for h in R["hstats"]})), samples=[s for h in R["hstats"] for s in h["samples"]][:6],
        harness_errors=R["herr"][:5])
    e = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=sorted({x for r in P + C for x in r["assumptions"]}), wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(e, f, indent=1, default=repr)
    print(f"{prop}: {len(P)} proofs, {len(C)} contracts, obligations {dis}/{obl} discharged, harness {ev} cases ({dn} distinct), {e['wall_s']} s")
    for b in bad: print("  undecided:", b["name"], b["status"], b["detail"][:160].replace("\n", " "), b["failures"][:2])
    for x in R["herr"][:3]: print("  harness error:", x[:300].replace("\n", " "))
    for l in lines: print(l)
    if nviol: return 1
    if not ev and not dis:
        print("no obligation was generated and no case was run"); return 2
    return 0

def z3v():
    import z3
    return z3.get_version_string()

if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
