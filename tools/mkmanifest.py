"""Writes MANIFEST.json from properties.jsonl and the modules in props/."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import symvm.boot  # noqa

PY = "/opt/venv/bin/python"
NA = {}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "props", i.lower() + ".py")):
        m = importlib.import_module("props." + i.lower())
        checks.append({
            "property": i,
            "quick_cmd": "%s run_check.py %s --tier quick" % (PY, i),
            "thorough_cmd": "%s run_check.py %s --tier thorough" % (PY, i),
            "technique": "symbolic execution of the repository's Python source (own AST interpreter with state merging), obligations decided by Z3; counterexamples replayed on the real code",
            "level": "model_checking",
            "level_note": m.LEVEL_NOTE,
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "%s setup.py" % PY, "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
