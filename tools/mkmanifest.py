"""Regenerates MANIFEST.json from properties.jsonl and the check modules present."""
import json, os, re
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(f"{R}/properties.jsonl")]
checks,na=[],[]
for p in props:
    f=f"{R}/vh/checks/{p['id'].lower()}.py"
    if not os.path.exists(f):
        na.append({"property":p["id"],"reason":"check still being built"}); continue
    src=open(f).read()
    ns={}
    for k in ("LEVEL","TECHNIQUE","NOTE"):
        m=re.search(rf'^{k} = ((?:\(.*?\n?\))|(?:".*?"))$',src,re.M|re.S)
        ns[k]=eval(m.group(1)) if m else None
    assert ns["LEVEL"] and ns["TECHNIQUE"] and ns["NOTE"],(f,ns)
    checks.append({"property":p["id"],"quick_cmd":f"./run {p['id']} quick","thorough_cmd":f"./run {p['id']} thorough",
      "evidence_file":f"evidence/{p['id']}.json","technique":ns["TECHNIQUE"],"level":ns["LEVEL"],"level_note":ns["NOTE"]})
m={"version":1,"setup_cmd":"./setup","checks":checks,"not_applicable":na,
   "notes":"Explicit TLA+ specifications in spec/, checked by TLC; every check runs the code of /repo's working tree and has TLC judge what it did. No hooks in /repo are needed: the public API exposes the abstract state."}
json.dump(m,open(f"{R}/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"n/a")
