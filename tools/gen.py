#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
from propdefs import PROPS, NOT_APPLICABLE, HOOKS
from checks import CHECKS
na = {n["property"] for n in NOT_APPLICABLE}
with open(f"{V}/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], state=p["state"], observe_at=p["observe"], hook_needed=p["hook"]))) + "\n")
m = dict(version=1, setup_cmd="true", hooks=HOOKS, checks=[dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']} --tier quick", thorough_cmd=f"python3 run.py {p['id']} --tier thorough",
     technique=p["technique"], level="exploration", level_note=p["note"], evidence_file=f"evidence/{p['id']}.json") for p in PROPS if p["id"] not in na], not_applicable=NOT_APPLICABLE)
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1); open(f"{V}/MANIFEST.json", "a").write("\n")
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
assert {p for p in ids if p not in na} == set(CHECKS), (set(ids) ^ set(CHECKS))
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
for l in open(f"{V}/properties.jsonl"): jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
print(len(ids), "properties")
