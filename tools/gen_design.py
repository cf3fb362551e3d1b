#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md (properties, planted bugs) from notes.py and seeded/."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from notes import N

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]


def properties():
    out = []
    for p in props:
        n = N[p["id"]]
        out += ["### %s: %s" % (p["id"], p["title"]), "", p["statement"], "",
                "* **Technique**: %s." % n["technique"],
                "* **Enumerated**: %s" % n["enum"],
                "* **Oracle**: %s" % n["oracle"],
                "* **Bounds**: %s" % n["bounds"],
                "* **Beyond the tests because** %s" % n["reach"]]
        if n["limits"]:
            out.append("* **Limits**: %s." % n["limits"].rstrip("."))
        out.append("")
    return "\n".join(out)


def seeded():
    out = ["| property | planted bug | needs | what it breaks |", "|---|---|---|---|"]
    d = os.path.join(ROOT, "seeded")
    rows = []
    for b in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, b, "meta.json")))
        rows.append((m["property"], b, m["needs"], m["what_it_breaks"]))
    out += ["| %s | %s | %s | %s |" % tuple(c.replace("|", "\\|").replace("\n", " ") for c in r) for r in sorted(rows)]
    return "\n".join(out)


path = os.path.join(ROOT, "DESIGN.md")
s = open(path).read()
for name, f in (("properties", properties), ("seeded", seeded)):
    a, b = "<!-- %s -->\n" % name, "\n<!-- end %s -->" % name
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + f() + s[j:]
open(path, "w").write(s)
