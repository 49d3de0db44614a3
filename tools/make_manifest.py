#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and scenarios.py."""
import json,os,sys
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,H)
from scenarios import PROPS
props=[json.loads(l) for l in open(os.path.join(H,'properties.jsonl'))]
NA=json.load(open(os.path.join(H,'tools','not_applicable.json'))) if os.path.exists(os.path.join(H,'tools','not_applicable.json')) else {}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in PROPS:
        b='; '.join(s['name']+(': '+s['bounds'] if s.get('bounds') else '') for s in PROPS[i]['scenarios'])
        checks.append(dict(property=i,quick_cmd='python3 check.py %s --tier quick'%i,thorough_cmd='python3 check.py %s --tier thorough'%i,technique='bounded symbolic execution of the LLVM IR of the real code; every path decided by SAT/SMT (MiniSat bit-blasting, Z3)',level=PROPS[i].get('level','other'),level_note=PROPS[i].get('note','Exhaustive within stated bounds, nothing outside them. Scenarios: '+b)))
    else: na.append(dict(property=i,reason=NA.get(i,'check not built yet')))
json.dump(dict(version=1,setup_cmd='make -C engine',checks=checks,not_applicable=na),open(os.path.join(H,'MANIFEST.json'),'w'),indent=1)
