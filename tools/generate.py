#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the tables below."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/ptwt/"

CONV = ["conv_transform.py", "conv_transform_2.py", "conv_transform_3.py", "separable_conv_transform.py"]
MAT = ["matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py"]

P = []


def prop(id, title, statement, over, text, tests, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, technique=technique, note=note, na=na))


exec(open(os.path.join(HERE, "tools", "table.py")).read())

NOTE = ("Abstract interpretation of /repo's current sources over symbolic lengths, filter lengths and batch sizes (partitioned by parity and order); "
        "decides every listed call scenario for all sizes in its precondition. Trusts the library models and the stated wavelet assumptions; undecided obligations are counted in the evidence, never reported.")

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": [S + x for x in p["files"]], "mechanism": [{"name": n, "where": S + w} for n, w in p["mech"]]},
        }) + "\n")

m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa check.py", "checks": [], "not_applicable": []}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({
            "property": p["id"],
            "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"],
            "level": "other",
            "level_note": (p["note"] + " " if p["note"] else "") + NOTE,
        })
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
