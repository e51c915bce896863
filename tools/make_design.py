#!/opt/venv/bin/python
"""Writes DESIGN.md (from tools/design_head.md, tools/design_tail.md, tools/notes.py, the checks and the planted bugs) and tools/levels.json."""
import importlib, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(ROOT)
sys.path[:0] = [ROOT, os.path.join(ROOT, "tools"), os.path.join(ROOT, ".deps")]
from notes import N
props = [json.loads(l) for l in open("properties.jsonl")]
cost = json.load(open("tools/cost.json")) if os.path.exists("tools/cost.json") else {}
caught = json.load(open("tools/caught.json")) if os.path.exists("tools/caught.json") else {}
bugs = {}
for b in sorted(os.listdir("seeded")):
    bugs.setdefault(json.load(open("seeded/%s/meta.json" % b))["property"], []).append(b)
out = [open("tools/design_head.md").read().rstrip(), "", "## Per property", ""]
for p in props:
    i = p["id"]
    t, lvl, reach = N[i]
    s = importlib.import_module("checks." + i.lower()).SUITE
    out += ["### %s %s" % (i, p["title"]), "",
            "* Technique: %s." % t, "* Generated and compared with: %s." % re.sub(r"\s+", " ", s.rule).rstrip("."),
            "* Sub-checks (cases quick / thorough): " + "; ".join("%s (%s)" % (u.name, "%d / %d" % (u.n["quick"], u.n["thorough"]) if u.strategy is not None else "enumerated") for u in s.subs) + "."]
    if s.assumptions:
        out.append("* Assumes: " + "; ".join(s.assumptions) + ".")
    out += ["* Bounds: " + lvl + (" Quick run about %d s on 8 cores." % cost[i] if i in cost else ""), "* Reaches beyond the tests: " + reach]
    if i in bugs:
        out.append("* Planted bugs: " + ", ".join("%s (%s)" % (b, caught.get(b, "not run")) for b in bugs[i]) + ".")
    out.append("")
out += [open("tools/design_tail.md").read().rstrip(), ""]
open("DESIGN.md", "w").write("\n".join(out))
json.dump({i: [N[i][0], "Held on every generated case; nothing is claimed beyond the generated space. " + N[i][1]] for i in N}, open("tools/levels.json", "w"), indent=1)
print(len(props), "properties;", sum(map(len, bugs.values())), "planted bugs")
