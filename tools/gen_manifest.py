import json, sys
sys.path.insert(0, "/verif")
from specs import CHECKS
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=[], not_applicable=[])
NA = {}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
                                technique=c["technique"], level=c.get("level", "exploration"), level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(m["checks"]), "checks")
