#!/usr/bin/env python3
"""writes DESIGN.md from tools/DESIGN.in, known/levels.json, properties.jsonl and seeded/"""
import json,os,glob
V='/verif/'
lv=json.load(open(V+'known/levels.json')); t=''
for l in open(V+'properties.jsonl'):
    p=json.loads(l); i=p['id']; c=lv[i]
    t+=f"**{i} {p['title']}.** {c.get('how','')} {c['note']}"
    if c['gap']: t+=f" *Bounded or assumed:* {c['gap']}."
    t+='\n\n'
s='| change | property | what it needs |\n|---|---|---|\n'
for d in sorted(glob.glob(V+'seeded/*')):
    m=json.load(open(d+'/meta.json')); s+=f"| {os.path.basename(d)} | {m['property']} | {m['needs']} |\n"
d=open(V+'tools/DESIGN.in').read().replace('PROPS\n',t,1).replace('SEEDS\n',s,1).replace('INCIDENT\n',open(V+'NOTES.incident.md').read(),1)
open(V+'DESIGN.md','w').write(d)
