#!/usr/bin/env python3
"""dev.py UNIT.vx [group-substring...]: extract and verify, errors shortened."""
import sys,os,json,subprocess,glob,re,shutil
from concurrent.futures import ThreadPoolExecutor
V='/verif'
out='/tmp/vxdev'; shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
u=sys.argv[1]; pats=sys.argv[2:]
r=subprocess.run([V+'/target/debug/vx',V+'/proofs',os.environ.get('REPO','/repo'),out,u],capture_output=True,text=True)
if r.returncode: print(r.stdout,r.stderr); sys.exit(1)
ms=[json.load(open(f)) for f in sorted(glob.glob(out+'/*.json')) if 'vacuity' not in f]
if pats: ms=[m for m in ms if any(p in m['group'] for p in pats)]
def run(m):
    t=os.environ.get('T','100')
    p=subprocess.run(['timeout',t,'verus','--triggers-mode','silent',*([] if m['group']=='prelude' else ['--verify-root']),'--multiple-errors',os.environ.get('ME','3'),m['rs']],capture_output=True,text=True,cwd=out)
    return m,p
nv=0
with ThreadPoolExecutor(int(__import__("os").environ.get("J","8"))) as ex:
    for m,p in ex.map(run,ms):
        res=re.search(r'(\d+) verified, (\d+) errors',p.stdout)
        ok=res and res.group(2)=='0' and p.returncode==0
        extra=' '.join(f'{k}={m[k]}' for k in('lost','uncontracted') if m[k])
        print(('ok  ' if ok else 'FAIL'),m['group'],res.group(0) if res else 'rc=%d'%p.returncode,extra)
        if not ok:
            blocks=re.split(r'\n(?=(?:error|warning|note))',p.stderr)
            n=0
            for b in blocks:
                if b.startswith('error') and 'aborting due' not in b:
                    n+=1
                    if n>int(os.environ.get('N','4')): break
                    print('\n'.join('   '+l[:200] for l in b.split('\n')[:int(os.environ.get('L','14'))]))
