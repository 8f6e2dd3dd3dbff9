#!/opt/venv/bin/python
"""Regenerates MANIFEST.json from properties.jsonl and the check modules."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
sys.dont_write_bytecode = True
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    f = os.path.join(V, "harness", "checks", i.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": i, "reason": "no check built yet"})
        continue
    m = importlib.import_module("checks." + i.lower())
    checks.append({
        "property": i,
        "quick_cmd": f"./check {i}",
        "thorough_cmd": f"./check {i} --thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": getattr(m, "TECHNIQUE", "runtime monitoring: reference-model oracle over recorded executions of the real CLI"),
        "level": getattr(m, "LEVEL", "exploration"),
        "level_note": getattr(m, "LEVEL_NOTE", "Held on the executions explored (seeded random and hostile models, counts in the evidence file); "
                              "trusts the independent reference model in harness/ref.py and PyYAML. No claim about inputs outside the generator's reach."),
    })
out = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: every monitor observes the command line, its files, its exit code and its log. See DESIGN.md."}
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
