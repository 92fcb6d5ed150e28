"""Validates MANIFEST.json, properties.jsonl and evidence/*.json against the schemas (run with python3-vt)."""
import glob, json, os
import jsonschema
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def schema(n): return json.load(open(f"/root/.vp/{n}.schema.json"))
jsonschema.validate(json.load(open(f"{R}/MANIFEST.json")), schema("MANIFEST"))
for l in open(f"{R}/properties.jsonl"): jsonschema.validate(json.loads(l), schema("PROPERTIES"))
for f in glob.glob(f"{R}/evidence/P??.json"):
    try: jsonschema.validate(json.load(open(f)), schema("EVIDENCE"))
    except jsonschema.ValidationError as e: print(f, e.message)
print("ok")
