"""Runs the obligations of one property, decides, and writes the evidence."""
import json, os, sys, time, importlib

CMD = "/opt/venv/bin/python /verif/check.py %s"


def write_evidence(ev, pid, tier, seed, level, coverage, t0, assumptions, notes, violations):
    d = dict(property=pid, tier=tier, seed=seed, level=level, coverage=coverage, assumptions=assumptions + notes,
             wall_s=round(time.time() - t0, 3), violations=violations)
    tmp = os.path.join(ev, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(d, f, indent=1, default=str)
    os.replace(tmp, os.path.join(ev, pid + ".json"))


def _matches(entry, fail):
    if entry.get("contract") != fail.get("contract"):
        return False
    if entry.get("label") and entry["label"] != fail.get("label"):
        return False
    if entry.get("labels") and fail.get("label") not in entry["labels"]:
        return False
    m = entry.get("match")
    return m is None or m in json.dumps(fail.get("info"))


def run(pid, tier, seed, t0, ev, known, argv):
    from vp import rt
    mod = sys.modules["props." + pid.lower()]
    level = "exploration"
    proofs = None
    try:
        from vp import prove
    except ImportError:
        prove = None
    if prove is not None and prove.load(pid):
        proofs = prove.run_proofs(pid, tier, seed)
        level = "proof"
    for f in os.listdir(os.path.join(ev, 'replay')):
        if f.startswith(pid + '-'):
            os.unlink(os.path.join(ev, 'replay', f))
    budget = float(os.environ.get("VP_BUDGET", "40" if tier == "quick" else "600"))
    res = rt.run_contracts(pid, tier, seed, budget, known=(lambda f: any(_matches(e, f) for e in known)) if known else None)
    fails, kf = [], []
    for name, r in sorted(res.items()):
        for f in r["fails"]:
            e = next((e for e in known if _matches(e, f)), None)
            (kf if e else fails).append((f, e))
    violations = 0
    shown = set()
    lines = []
    for f, e in kf:
        if e["id"] not in shown:
            shown.add(e["id"])
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    for f, _ in fails[:5]:
        violations += 1
        p = os.path.join(ev, "replay", "%s-%s-%d.json" % (pid, f["contract"], f["index"]))
        json.dump(dict(f, obligation=f["contract"] + ": " + f["label"],
                       replay_cmd=(CMD % pid) + " --replay " + p), open(p, "w"), indent=1, default=str)
        lines.append("VIOLATION property=%s replay=%s" % (pid, p))
        print("  breach of contract %s: %s" % (f["contract"], f["label"]))
    evaluations = sum(r["evals"] for r in res.values())
    checked = sum(r["checked"] for r in res.values())
    samples = []
    for name, r in sorted(res.items()):
        samples.append(dict(contract=name, cases=r["evals"], obligations_evaluated=r["checked"], labels=r["labels"],
                            cut_by_time=r["cut"]))
        if r["checked"] == 0 and not r["fails"]:
            violations += 1
            p = os.path.join(ev, "replay", "%s-%s-vacuous.json" % (pid, name))
            json.dump(dict(property=pid, obligation=name + ": contract is exercised", detail="no obligation was evaluated"), open(p, "w"))
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, p))
    cov = dict(evaluations=evaluations, distinct_nontrivial=checked,
               rule="evaluations: generated states on which the real functions ran (run-time contract checking, bounded); "
                    "distinct_nontrivial: postconditions evaluated on them; every state is drawn from its own seed",
               samples=samples)
    assumptions = list(getattr(mod, "ASSUMPTIONS", []))
    if proofs is not None:
        prove.merge(proofs, cov, assumptions, lines, ev, pid, any(not l.startswith("KNOWN") for l in lines))
        violations += proofs.violations
    write_evidence(ev, pid, tier, seed, level, cov, t0, assumptions, [], violations)
    for l in lines:
        print(l)
    print("%s %s: %d states, %d postconditions evaluated%s, %.1f s, %d violation(s)" % (
        pid, tier, evaluations, checked, "" if proofs is None else ", %d/%d obligations discharged" % (cov["discharged"], cov["obligations"]),
        time.time() - t0, violations))
    return 1 if violations else 0
