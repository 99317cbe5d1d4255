"""Writes properties.jsonl and MANIFEST.json from tools/meta.py."""
import json
import os
import sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + "/tools", H + "/engine"]
import meta
import props
with open(H + "/properties.jsonl", "w") as f:
    for pid, m in meta.META.items():
        f.write(json.dumps(m["prop"]) + "\n")
checks, nas = [], []
for pid, m in meta.META.items():
    if "na" in m:
        nas.append(dict(property=pid, reason=m["na"]))
        continue
    assert pid in props.PROPS, pid
    checks.append(dict(
        property=pid, quick_cmd="python3 check.py %s quick" % pid,
        thorough_cmd="python3 check.py %s thorough" % pid,
        evidence_file="evidence/%s.json" % pid, technique=meta.TECH,
        level="model_checking", level_note=m["note"]))
json.dump(dict(version=1, setup_cmd="python3 engine/prebuild.py",
               checks=checks, not_applicable=nas),
          open(H + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    for l in open(H + "/properties.jsonl"):
        jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(json.load(open(H + "/MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(checks), len(nas))
except ImportError:
    pass
