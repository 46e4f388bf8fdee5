"""writes /verif/MANIFEST.json from properties.jsonl and the modules in checks/"""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl"), encoding="utf8"):
    p = json.loads(line)
    pid = p["id"]
    path = os.path.join(V, "checks", pid.lower() + ".py")
    if not os.path.exists(path):
        na.append({"property": pid, "reason": "not built within the time: the technique applies (generated trees, format, parse again), but only under PyPy 3.9, as importing the grammar fails under CPython 3.12 (inspect.getargspec); nothing in the service imports it and its formatter refuses or garbles many trees today, so each would first have to be judged"})
        continue
    consts = {}
    for n in ast.parse(open(path, encoding="utf8").read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                consts[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    checks.append({
        "property": pid,
        "quick_cmd": "/opt/venv/bin/python run.py %s" % pid,
        "thorough_cmd": "/opt/venv/bin/python run.py %s --thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": consts["TECHNIQUE"],
        "level": consts.get("LEVEL", "exploration"),
        "level_note": consts["LEVEL_NOTE"],
    })
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/selftest.py", "checks": checks, "not_applicable": na,
     "notes": "All checks are property-based tests / fuzzers driven by run.py; they import the code from /repo's "
              "working tree, need no build and no hooks, and run in private scratch directories. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf8"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not claimed")
