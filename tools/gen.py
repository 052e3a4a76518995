#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (single source of truth)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE, NOTES
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        rec = dict(id=p["id"], title=p["title"], statement=p["statement"],
                   quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                   anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                                observe_at=p.get("observe", []), hook_needed=None))
        f.write(json.dumps(rec) + "\n")
man = dict(version=1, setup_cmd="./build.sh", checks=[
    dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
         evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level=p["level"], level_note=p["note"])
    for p in PROPS if p["id"] not in [n[0] for n in NOT_APPLICABLE]],
    not_applicable=[dict(property=i, reason=r) for i, r in NOT_APPLICABLE], notes=NOTES)
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(root, "properties.jsonl")): jsonschema.validate(json.loads(l), s)
except ImportError: pass
print(len(PROPS), "properties")
