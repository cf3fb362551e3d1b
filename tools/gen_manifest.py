#!/usr/bin/env python3
"""Writes MANIFEST.json from checkdefs.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from checkdefs import CHECKS, NOT_APPLICABLE

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        d = CHECKS[i]
        checks.append(dict(
            property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            technique=d.get("technique", "stateless model checking of the real code: exhaustive enumeration of bounded inputs and operation histories"),
            level="model_checking",
            level_note=d.get("note", "Every execution of the real code within the bounds of the families in DESIGN.md is run and compared with an independent reference; nothing is claimed outside these bounds.")))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check under construction")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="See DESIGN.md. No hooks in /repo are needed: every check drives the public interface.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
