"""Writes MANIFEST.json from properties.jsonl and the proofs that exist (props/pNN.py)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {"C33": "the guarantee is about interleavings of concurrent calls into the application's storage, whose atomicity psion does not control; a contract on one sequential call cannot express it, and psion offers no compare-and-delete for it to rest on (see DESIGN.md)"}
NOTE = {}
exec(open(os.path.join(H, "tools", "notes.py")).read(), NOTE) if os.path.exists(os.path.join(H, "tools", "notes.py")) else None
notes = NOTE.get("NOTES", {})
checks = []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NA: continue
    proof = os.path.exists(os.path.join(H, "props", f"p{p[1:]}.py"))
    checks.append(dict(property=p, quick_cmd=f"./check.py {p}", thorough_cmd=f"./check.py {p} --tier thorough", evidence_file=f"evidence/{p}.json",
        technique="contract-based deductive verification: verification conditions generated by symbolic execution of the real source of psion, function by function against contracts, discharged by z3 (cvc5 second opinion in the thorough tier); counterexamples replayed on the real code" if proof else "bounded stand-in for a contract: the property's postconditions checked on generated executions of the real code (labelled bounded, not proved)",
        level="proof" if proof else "exploration",
        level_note=notes.get(p, "every path of the real functions, for all inputs, against the postconditions listed in the evidence; library functions by trusted models; a bounded replay harness runs beside it" if proof else "bounded: generated cases within the time limit of the check")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()]), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), sum(c["level"] == "proof" for c in checks))
