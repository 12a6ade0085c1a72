"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
NOTE = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())  # TECH, NOTE

checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        cmd = "/opt/venv/bin/python check.py " + p
        checks.append({
            "property": p, "quick_cmd": cmd, "thorough_cmd": cmd + " --thorough",
            "evidence_file": "evidence/%s.json" % p, "technique": TECH[p], "level": "model_checking",
            "level_note": NOTE[p] + " " + COMMON})
    else:
        na.append({"property": p, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks are needed: everything is observed through the user-supplied "
               "callables, arguments and results", "source_commits": []},
     "notes": "See DESIGN.md. All verdicts are TLC's, on the TLA+ modules in spec/."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
