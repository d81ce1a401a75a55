#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the contracts: a property some contract names is decided by proof."""
import json,glob,re
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
claimed=set()
for f in sorted(glob.glob('/verif/contracts/*.spec')):
    for l in open(f):
        m=re.match(r'\s+props\s+(.*)',l)
        if m: claimed|=set(m.group(1).split())
notes=json.load(open('/verif/levels.json'))
checks=[]
for p in props:
    i=p['id']
    proof=i in claimed
    checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
      "technique":"contract-based deductive verification of the real code (SSA to SMT, z3/cvc5)"+("" if notes.get(i,{}).get("full") else ", bounded stand-in for the rest") if proof else "bounded stand-in for contracts (no contract within reach)",
      "level":"proof" if proof else "exploration",
      "level_note":notes.get(i,{}).get("note") or "bounded execution of the real code against an independent reference; no obligation is discharged for this property"})
m={"version":1,"setup_cmd":"true","checks":checks,"not_applicable":[],"notes":"See DESIGN.md."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
