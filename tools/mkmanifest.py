"""Writes MANIFEST.json from properties.jsonl and the table of deductively decided properties below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C24": "Convergence for 'realistic' parameters is not a pre/postcondition: it is false for arbitrary parameters and its proof needs analysis of an iterated nonlinear map, outside contract-based verification.",
}
try:
    LEVELS = json.load(open(os.path.join(HERE, "vc", "levels.json")))
except Exception:
    LEVELS = {}
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in NA:
        continue
    lv = LEVELS.get(i, {"level": "exploration", "technique": "runtime-checked contracts (bounded stand-in)",
                        "note": "Bounded stand-in: contracts with independent oracles evaluated on seeded random cases of the real compiled code."})
    checks.append({"property": i, "quick_cmd": "/opt/venv/bin/python check.py %s" % i,
                   "thorough_cmd": "/opt/venv/bin/python check.py %s --thorough" % i,
                   "technique": lv["technique"], "level": lv["level"], "level_note": lv["note"]})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import Cython, numpy\"", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
           "notes": "No hooks are needed in /repo. Every check rebuilds the extension modules from /repo's current tree in a scratch folder."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
