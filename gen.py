#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from sa/rules/catalog.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
from rules.catalog import P, NA, ORDER
ids = sorted(ORDER)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for i in ids:
        p = P[i]
        assert len(p["title"]) <= 80, (i, len(p["title"]))
        d = {"id": i, "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3 sa/setup.py",
     "checks": [{"property": i, "quick_cmd": "python3 sa/check.py %s quick" % i, "thorough_cmd": "python3 sa/check.py %s thorough" % i,
                 "technique": P[i]["technique"], "level": "other", "level_note": P[i]["note"]} for i in ids if i not in NA],
     "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i in NA]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(ids), "properties,", len(m["checks"]), "claimed")

# table of the planted bugs in DESIGN.md
d = os.path.join(HERE, "DESIGN.md")
s = open(d).read()
rows = ["| id | property | what it breaks | needs | caught by |", "|----|----|----|----|----|"]
for i in sorted(os.listdir(os.path.join(HERE, "seeded"))) if os.path.isdir(os.path.join(HERE, "seeded")) else []:
    t = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (i, t["property"], t["what_it_breaks"], t["needs"], t["property"]))
a, b = s.index("<!-- seeds -->"), s.index("<!-- /seeds -->")
open(d, "w").write(s[:a] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + s[b:])
