#!/usr/bin/env python3
# Writes MANIFEST.json: claimed properties (those with proofs in contracts/ and an entry here) and the rest.
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
T="contract-based deductive verification of the real Go code (SSA verification conditions, inductive loop invariants, z3/cvc5)"
A=" Assumes the engine, go/ssa and the solvers, and the library contracts listed in the evidence file."
notes=json.load(open(here+'/tools/notes.json'))
checks=[];na=[]
for p in props:
    i=p['id']; n=notes.get(i)
    if n and n.get('claim'):
        checks.append(dict(property=i,quick_cmd=f'./run.sh {i}',thorough_cmd=f'VERIF_TIER=thorough ./run.sh {i}',technique=T,level=n.get('level','proof'),level_note=n['note']+A))
    else:
        na.append(dict(property=i,reason=(n or {}).get('reason','no contracts discharged yet: not claimed')))
json.dump(dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na,
  notes='No hooks in /repo: contracts live in /verif/contracts and are overlaid on the packages while they are loaded. Repairs of genuine defects are the fix: commits of /repo, listed in known-findings.txt.'),open(here+'/MANIFEST.json','w'),indent=1)
