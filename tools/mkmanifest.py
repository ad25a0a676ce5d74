#!/usr/bin/env python3
"""writes MANIFEST.json from known/levels.json and properties.jsonl"""
import json
V='/verif'
lv=json.load(open(V+'/known/levels.json'))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']; c=lv.get(i)
    if not c or c.get('not_applicable'):
        na.append({'property':i,'reason':(c or {}).get('not_applicable','contracts not written yet')}); continue
    d={'property':i,'quick_cmd':f'python3 check.py {i} quick','thorough_cmd':f'python3 check.py {i} thorough','technique':c.get('technique','contract-based deductive verification: Verus contracts on functions extracted from /repo on every run; a bounded oracle harness supplies replays'),'level':c['level'],'level_note':c['note']}
    if c.get('theorems'): d['theorems']=c['theorems']
    checks.append(d)
m={'version':1,'setup_cmd':'bash setup.sh','checks':checks,'not_applicable':na,'notes':'See DESIGN.md. No hooks: the functions under contract are extracted from /repo as they are.'}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
