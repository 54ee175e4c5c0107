"""Writes MANIFEST.json from properties.jsonl, the property modules and na.json."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
NA = json.load(open(os.path.join(ROOT, "tools", "na.json")))
NOTE = ("Static analysis: abstract interpretation of the source in a gated value-numbering domain; obligations per context listed in the evidence. "
        "Numbers, flags and functions are symbolic, container sizes are fixed per context; real arithmetic, library calls by model.")
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    f = os.path.join(ROOT, "hvsa", "props", p.lower() + ".py")
    if os.path.exists(f) and p not in NA:
        m = importlib.import_module("hvsa.props." + p.lower())
        checks.append({"property": p, "quick_cmd": "python3 -m hvsa %s --tier quick" % p, "thorough_cmd": "python3 -m hvsa %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": "static analysis: abstract interpretation, " + m.RULE.split(":")[0], "level": "other",
                       "level_note": getattr(m, "NOTE", NOTE)})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check has been built for it yet")})
json.dump({"version": 1, "setup_cmd": "python3 -c 'import ast,sys; assert sys.version_info>=(3,9)'", "checks": checks, "not_applicable": na,
           "notes": "Checks need only python3 (stdlib). They read /repo/src and never import or run it."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
