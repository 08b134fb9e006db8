"""Writes DESIGN.md: the fixed text in tools/design.in.md plus tables generated from the contracts, proofs, findings and seeds."""
import json, os, sys, re, ast
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
try:
    from vp import prove
except ImportError:
    prove = None


def contracts(pid):
    src = open(os.path.join(HERE, "props", pid.lower() + ".py")).read()
    out, assume = [], []
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "contract":
                    kw = {k.arg: k.value for k in d.keywords}
                    t = ast.literal_eval(kw["target"]) if "target" in kw else ""
                    labels = []
                    for c in ast.walk(n):
                        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("ensures", "eq", "frame", "raises"):
                            for a in c.args:
                                if isinstance(a, ast.Constant) and isinstance(a.value, str):
                                    if a.value not in labels:
                                        labels.append(a.value)
                                    break
                    out.append((n.name, t, labels))
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "ASSUMPTIONS":
            assume = ast.literal_eval(n.value)
    return out, assume


known = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
seeds = {}
sd = os.path.join(HERE, "seeded")
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, s, "meta.json")))
    seeds.setdefault(m["property"], []).append((s, m))
caught = {}
cf = os.path.join(HERE, "tools", "caught.json")
if os.path.exists(cf):
    caught = json.load(open(cf))

out = [open(os.path.join(HERE, "tools", "design.in.md")).read().rstrip(), "", "## Per property", ""]
for p in props:
    pid = p["id"]
    cs, assume = contracts(pid)
    out += ["### %s %s" % (pid, p["title"]), ""]
    if prove and prove.registered(pid):
        out += ["*Proved (deductive, unbounded):* " + prove.summary(pid), ""]
    else:
        out += ["*Proved:* nothing; every contract below is checked at run time only (bounded stand-in).", ""]
    out += ["*Run-time contracts (bounded):*", ""]
    for n, t, labels in cs:
        out.append("- `%s` on %s: %s" % (n, t, "; ".join(labels)))
    out.append("")
    if assume:
        out += ["*Assumptions:* " + "; ".join(assume), ""]
    f = [k for k in known if k["property"] == pid]
    for k in f:
        out.append("- %s" % (k["line"] if k["status"] == "fixed" else "known finding: " + k["what"]))
    if f:
        out.append("")
    for s, m in seeds.get(pid, []):
        out.append("- planted change `%s` (%s): %s" % (s, m["what_it_breaks"], caught.get(s, "not recorded")))
    if seeds.get(pid):
        out.append("")
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print(len(out), "lines")
