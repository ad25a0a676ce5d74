#!/usr/bin/env python3
"""runs every registered check and prints what is undecided on this tree (nothing should be, on the unchanged one)"""
import json,subprocess,sys
V='/verif'
ps=sys.argv[1:] or [c['property'] for c in json.load(open(V+'/MANIFEST.json'))['checks']]
for p in ps:
    r=subprocess.run(['python3',V+'/check.py',p,'quick'],capture_output=True,text=True)
    l=[x for x in r.stdout.splitlines() if x.startswith(('undecided','VIOLATION'))]
    print(p,r.returncode,r.stdout.splitlines()[-1][:120] if r.stdout else r.stderr[-200:],flush=True)
    for x in l: print('   ',x[:250],flush=True)
