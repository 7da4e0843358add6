#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json
V='/verif/'
T='abstract interpretation of the SSA (value numbering, byte-sequence normal forms, linear facts, inductive loop summaries) against a reference specification'
N='For every input in the harness domain, unbounded: every obligation reached is entailed. Trusts the analyzer, go/ssa and the models of standard-library and third-party functions.'
claims={}
for l in open(V+'tools/claims.txt'):
    l=l.rstrip('\n')
    if not l or l[0]=='#': continue
    p=l.split('|')
    claims[p[0]]=(p[1] if len(p)>1 and p[1] else T, p[2] if len(p)>2 and p[2] else N)
na={}
for l in open(V+'tools/na.txt'):
    l=l.rstrip('\n')
    if l and l[0]!='#':
        a,b=l.split('|',1); na[a]=b
ids=[json.loads(l)['id'] for l in open(V+'properties.jsonl')]
m={'version':1,'setup_cmd':'./setup.sh','checks':[],'not_applicable':[]}
for i in ids:
    if i in claims:
        t,n=claims[i]
        m['checks'].append({'property':i,'quick_cmd':f'./check.sh {i} quick','thorough_cmd':f'./check.sh {i} thorough','technique':t,'level':'proof','level_note':n})
    else:
        m['not_applicable'].append({'property':i,'reason':na.get(i,'No check yet: the specification harness for this property is still being built.')})
json.dump(m,open(V+'MANIFEST.json','w'),indent=1); open(V+'MANIFEST.json','a').write('\n')
print(len(m['checks']),'claimed',len(m['not_applicable']),'not')
