#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.

Run from /verif: python3 tools/props.py
"""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over,
                  quant=" ".join(quant.split()), why=" ".join(why.split()), files=files, mech=mech,
                  technique=technique, note=note, na=na))


exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())

LEVEL = "other"
out, checks, nas = [], [], []
for p in P:
    out.append({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
    })
    if p["na"]:
        nas.append({"property": p["id"], "reason": p["na"]})
    else:
        checks.append({
            "property": p["id"],
            "quick_cmd": "bash run.sh " + p["id"],
            "thorough_cmd": "bash run.sh " + p["id"],
            "technique": p["technique"],
            "level": LEVEL,
            "level_note": p["note"],
        })
ids = [p["id"] for p in P]
assert len(ids) == len(set(ids))
for o in out:
    assert len(o["title"]) <= 80, o["id"]
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": nas}, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(nas), "not applicable")
