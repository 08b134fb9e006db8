"""Writes MANIFEST.json from properties.jsonl and the proofs registered."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
try:
    from vp import prove
    proved = {p: prove.summary(p) for p in props if prove.registered(p)}
except ImportError:
    proved = {}
checks = []
RT = ("bounded: every postcondition is evaluated by the run-time side of the contracts on the real functions of /repo over generated states "
      "(ties, duplicates, degenerate bounds, all options); nothing outside the explored states is claimed")
for p in props:
    py = "/opt/venv/bin/python /verif/check.py " + p
    if p in proved:
        note = ("proved for all inputs within the stated model: " + proved[p] + ". Trusted: the verifier (vp/), z3, the numpy contracts it assumes, real arithmetic for floats. "
                "Functions of the property not listed are covered by run-time contract checking only (bounded).")
        checks.append(dict(property=p, quick_cmd=py, thorough_cmd=py + " --thorough", technique="contract-based deductive verification of the real Python code (own verification-condition generator, z3) with run-time contracts for the rest",
                           level="proof", level_note=note))
    else:
        checks.append(dict(property=p, quick_cmd=py, thorough_cmd=py + " --thorough", technique="contracts on the real functions, checked at run time over generated states (bounded stand-in)",
                           level="exploration", level_note=RT))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python /verif/tools/setup.py", checks=checks, not_applicable=[],
               notes="Contracts live in /verif/props and /verif/proofs; see DESIGN.md. No hooks in /repo."), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(proved), "with proofs")
