#!/usr/bin/env python3
"""MANIFEST.json from the registered checks and specs/na.json"""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vsa import run
for f in sorted(os.listdir(V + "/specs")):
    if f.endswith(".py") and f != "__init__.py":
        importlib.import_module("specs." + f[:-3])
na = json.load(open(V + "/specs/na.json"))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
AI = "abstract interpretation of the compiled IR (trace-partitioned affine/interval values, region and typestate domains, effect log)"
NOTE = ("decided from /repo's current sources by abstract interpretation of the API drivers in harness/; "
        "sound for the stated input bounds under the library models in vsa/libc.py, alarms only from exact partitions")
ch = []
for i in ids:
    if i in run.CHECKS:
        m = run.CHECKS[i][1]
        ch.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": m.get("technique", AI), "level": m.get("level", "other"),
                   "level_note": m.get("note", NOTE)})
miss = [i for i in ids if i not in run.CHECKS]
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": ch,
           "not_applicable": [{"property": i, "reason": na.get(i, "check not built yet")} for i in miss]},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(ch), "checks;", "not claimed:", miss)
