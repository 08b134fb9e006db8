"""check.py <PROPERTY> [--thorough] [--replay FILE]   (run with /opt/venv/bin/python)"""
import sys, os, json, time, hashlib, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
from vp import boot


def load(pid):
    boot.compiled()
    from vp import rt
    importlib.import_module("props." + pid.lower())
    return rt


def known(pid):
    out = []
    try:
        for e in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]:
            if e["property"] == pid and e.get("status") == "known":
                out.append(e)
    except OSError:
        pass
    return out


def main(argv):
    pid = argv[0]
    tier = "thorough" if "--thorough" in argv else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ev = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    try:
        rt = load(pid)
    except Exception as e:
        # the tree does not even import/build: every obligation is undischarged
        import traceback
        p = os.path.join(ev, "replay", pid + "-load.json")
        json.dump(dict(property=pid, obligation="code under contract loads", error=traceback.format_exc()[-4000:]), open(p, "w"))
        write_evidence(ev, pid, tier, seed, "other", dict(evaluations=0, distinct_nontrivial=0, rule="load failed", samples=[]), t0,
                       [], ["code under contract does not load: %r" % e], 1)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, p))
        return 1
    if "--replay" in argv:
        rp = argv[argv.index("--replay") + 1]
        if json.load(open(rp)).get("kind") == "proof":
            from vp import prove
            f = prove.replay(rp)
            print(json.dumps(f, indent=1, default=str))
            return 1 if f else 0
        case, f = rt.replay(rp)
        print(json.dumps(f, indent=1))
        return 1 if f else 0

    from vp import report
    return report.run(pid, tier, seed, t0, ev, known(pid), argv)


def write_evidence(ev, pid, tier, seed, level, coverage, t0, assumptions, notes, violations):
    from vp import report
    report.write_evidence(ev, pid, tier, seed, level, coverage, t0, assumptions, notes, violations)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
