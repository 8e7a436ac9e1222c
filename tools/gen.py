#!/usr/bin/env python3
"""regenerate properties.jsonl and MANIFEST.json from spec.py"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
from spec import P
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["tests"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
man = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[])
for p in P:
    if p["na"]:
        man["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
    else:
        man["checks"].append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"],
                                  thorough_cmd="python3 check.py %s thorough" % p["id"],
                                  technique="static analysis: " + p["technique"], level="other", level_note=p["note"]))
man["notes"] = "Generated by tools/gen.py from tools/spec.py. Known and repaired defects: known_findings.json."
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    for l in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(man["checks"]), len(man["not_applicable"]))
except ImportError:
    print("written (not validated)")
