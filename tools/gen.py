#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NOTES
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
        assert len(p["title"]) <= 80, p["id"]
checks, na = [], []
for p in PROPS:
    if os.path.exists(f"{root}/checks/{p['id'].lower()}.py") and not p.get("na"):
        checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p['id']}",
            technique=p["technique"], level="model_checking", level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason=p.get("na", "check not built yet")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, hooks=dict(guard="VERIF_HOOKS", enable="no hooks are needed: harnesses link the built library", source_commits=[]),
    not_applicable=na, notes=NOTES)
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1); open(root + "/MANIFEST.json", "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(root + "/properties.jsonl"): jsonschema.validate(json.loads(l), s)
    print("valid", len(checks), "checks", len(na), "not claimed")
except ImportError: print("no jsonschema")
