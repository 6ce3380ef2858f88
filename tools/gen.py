#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py; a property is
claimed when harness/<ID>_* exists."""
import glob, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NOT_CLAIMED
checks, na = [], []
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len([x for x in p["statement"].split(". ") if x]) <= 3, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
        if p["id"] in NOT_CLAIMED:
            na.append({"property": p["id"], "reason": NOT_CLAIMED[p["id"]]})
        elif glob.glob(os.path.join(root, "harness", p["id"] + "_*")):
            checks.append({
                "property": p["id"],
                "quick_cmd": "python3 ./check.py %s" % p["id"],
                "thorough_cmd": "python3 ./check.py %s --tier thorough" % p["id"],
                "technique": "model checking: " + p["technique"],
                "level": "model_checking", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "no check has been built for it yet"})
m = {"version": 1,
     "setup_cmd": "python3 ./check.py --selftest",
     "checks": checks, "not_applicable": na}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(root, "properties.jsonl")):
        jsonschema.validate(json.loads(l), s)
    print("schemas ok")
except ImportError:
    print("jsonschema not available: run with python3-vt")
print(len(PROPS), "properties,", len(checks), "checks")
