"""Write properties.jsonl and MANIFEST.json from the registry."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import PROPS, CHECKS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": k, "quick_cmd": "python3 check.py %s quick" % k,
                 "thorough_cmd": "python3 check.py %s thorough" % k,
                 "technique": "bounded exhaustive enumeration of executions of the real code against a reference model",
                 "level": c["level"],
                 "level_note": "Real code from /repo's working tree executed on every case in the bounds (" + c["rule"] + "). " + c["note"]}
                for k, c in CHECKS.items()],
     "not_applicable": NOT_APPLICABLE,
     "notes": "No hooks: the harnesses in harness/ link the library sources compiled from /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in PROPS:
        jsonschema.validate(p, s)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
assert len(set(p["id"] for p in PROPS)) == len(PROPS)
