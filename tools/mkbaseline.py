#!/usr/bin/env python3
"""records the shape of every function under contract on the unchanged tree"""
import json,glob,subprocess,os,shutil,sys
sys.argv=['x','P00']
V='/verif'; out='/tmp/vxbase'; shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
us=sorted(os.path.basename(f) for f in glob.glob(V+'/proofs/*.vx') if '\n#crate ' in open(f).read())
subprocess.check_call([V+'/target/debug/vx',V+'/proofs','/repo',out]+us)
b={}
for f in glob.glob(out+'/*.json'):
    if f.endswith('__vacuity.json'): continue
    m=json.load(open(f))
    for x in m['fns']:
        if not x.get('extra'): b[m['unit']+'/'+x['path']]=x['shape']
json.dump(dict(sorted(b.items())),open(V+'/baseline/shapes.json','w'),indent=1)
print(len(b),'functions')
