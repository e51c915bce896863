#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
NOTES = json.load(open("tools/levels.json"))
checks, na = [], []
for line in open("properties.jsonl"):
    pid = json.loads(line)["id"]
    if os.path.exists("checks/%s.py" % pid.lower()):
        t, n = NOTES.get(pid, ["property-based testing against an independent oracle", ""])
        checks.append({"property": pid, "quick_cmd": "bash check.sh %s quick" % pid, "thorough_cmd": "bash check.sh %s thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid, "technique": t, "level": "exploration",
                       "level_note": n or "Holds on every generated case; no claim beyond the generated space described in the evidence rule."})
    else:
        na.append({"property": pid, "reason": "no check has been built for it yet"})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks: all checks use the public API of /repo's working tree. See DESIGN.md."}, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
