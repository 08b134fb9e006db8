"""Records which check catches which planted change: reads lines of the bug runner from stdin."""
import json, os, sys, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, "tools", "caught.json")
d = json.load(open(p)) if os.path.exists(p) else {}
for l in sys.stdin:
    m = re.match(r"(\S+) (C\d\d) rc=(\d) (.*)\| *(.*)", l)
    if m:
        d[m[1]] = ("caught by %s: %s" % (m[2], m[5].replace("breach of contract", "contract").strip())) if m[3] == "1" else "missed by " + m[2]
have = set(os.listdir(os.path.join(HERE, "seeded")))
d = {k: v for k, v in sorted(d.items()) if k in have}
json.dump(d, open(p, "w"), indent=1)
