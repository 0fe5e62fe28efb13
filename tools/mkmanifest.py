#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl, props/ and dyn/."""
import json, os, re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
checks=[]; na=[]
NOTES={}
np_=V+'/tools/level_notes.json'
if os.path.exists(np_): NOTES=json.load(open(np_))
for p in props:
    i=p['id']; hp=os.path.exists(V+'/props/%s.py'%i); hd=os.path.exists(V+'/dyn/%s.py'%i)
    if not(hp or hd): na.append(dict(property=i,reason='no check built yet')); continue
    src=open(V+'/props/%s.py'%i).read() if hp else ''
    m=re.search(r"^LEVEL='(\w+)'",src,re.M); level=m.group(1) if m else ('proof' if hp else 'exploration')
    tech='contract-based deductive verification: verification conditions generated from the real code on every run (clang AST / Python AST), discharged by normal-form prover, z3 and cvc5' if hp else 'contracts of the public functions evaluated at run time against independent references (bounded stand-in, labelled bounded)'
    if hp and level!='proof': tech='contract-based deductive verification of the functions within reach; remaining functions by bounded run-time contract evaluation'
    checks.append(dict(property=i,quick_cmd='/opt/venv/bin/python check.py '+i,thorough_cmd='VERIF_TIER=thorough /opt/venv/bin/python check.py '+i,technique=tech,level=level,
        level_note=NOTES.get(i,'Deductive obligations over the listed functions (evidence: functions_under_contract); real arithmetic instead of floating point; clang AST trusted; run-time contract evaluation covers the rest, bounded.' if hp else 'Bounded: seeded inputs over the whole documented domain; no proof is claimed.')))
json.dump(dict(version=1,setup_cmd='true',checks=checks,not_applicable=na,notes='See DESIGN.md. No hooks are needed: checks read and build /repo\'s working tree in a scratch directory.'),open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'not applicable')
