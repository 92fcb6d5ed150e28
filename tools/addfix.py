"""usage: addfix.py PROP COMMIT TEXT -- record a repaired defect in known_findings.json"""
import json, sys
p = '/verif/known_findings.json'
k = json.load(open(p))
prop, h, t = sys.argv[1:4]
t = f"fixed: property={prop} {h} {t}"
if all(e['text'] != t for e in k if 'text' in e):
    k.append({"property": prop, "status": "fixed", "text": t})
open(p, 'w').write("[\n" + ",\n".join(" " + json.dumps(e) for e in k) + "\n]\n")
