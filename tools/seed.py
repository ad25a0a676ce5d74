#!/usr/bin/env python3
"""seed.py make FILE.py   : (re)makes /verif/seeded/<id> from seed descriptions, verifying each in a scratch copy of /repo
   seed.py catch [ID..]   : applies each patch to /repo, runs the check of its property (or --all properties), undoes it
"""
import sys, os, subprocess, json, shutil, re
S = '/tmp/seedrepo'
V = '/verif'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='nightly-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
DEMO = '''#!/bin/bash
# exit 0: the property holds on this input.  run with cwd /repo
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
serde_json = "1.0.117"
%s
TOML
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
cd "$tmp" || exit 2
cargo run -q --offline
'''
PK = {'hand': ('jsonpath-rfc9535', 'jsonpath_rfc9535'), 'itr': ('jsonpath_rfc9535_iter',) * 2, 'loc': ('jsonpath_rfc9535_locations',) * 2, 'ser': ('jsonpath_rfc9535_serde',) * 2,
      'pst': ('jsonpath_rfc9535_pest',) * 2, 'prec': ('jsonpath_rfc9535_pest_recursive',) * 2, 'sing': ('jsonpath_rfc9535_singular', 'jsonpath_rfc9535_singular_selector')}

def sh(cmd, cwd=S, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr

def make(desc):
    if not os.path.exists(S):
        sh(f'cp -a /repo {S}', '/')
    for s in desc:
        sh('git checkout -q -- . && git clean -fdq')
        d = f'{V}/seeded/{s["id"]}'
        os.makedirs(d, exist_ok=True)
        for f, old, new in s['edits']:
            p = f'{S}/crates/{f}'
            t = open(p).read()
            n = s.get('count', 1)
            assert t.count(old) == n or s.get('any'), (s['id'], f, t.count(old))
            blame = subprocess.run(['git', 'blame', '-s', f'crates/{f}'], cwd=S, capture_output=True, text=True).stdout.split('\n')
            ln = t[:t.index(old)].count('\n')
            k = old.count('\n') + 1
            fixlines = [b for b in blame[ln:ln + k] if not b.startswith('^')]
            if fixlines:
                print(s['id'], 'WARNING: touches lines of a fix', fixlines)
            open(p, 'w').write(t.replace(old, new))
        open(f'{d}/patch.diff', 'w').write(subprocess.run(['git', 'diff'], cwd=S, capture_output=True, text=True).stdout)
        deps = '\n'.join(f'{k} = {{ package = "{PK[k][0]}", path = "$repo/crates/{PK[k][1]}" }}' for k in s['crates'])
        open(f'{d}/demo.sh', 'w').write(DEMO % deps)
        os.chmod(f'{d}/demo.sh', 0o755)
        open(f'{d}/main.rs', 'w').write(s['main'].strip() + '\n')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
        sh("find crates -name '*.rs' -o -name '*.pest' | xargs touch")
        rc, out = sh('cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8 --exact --skip compliance --skip compliance_loop 2>&1')
        npass = sum(int(x) for x in re.findall(r'(\d+) passed', out))
        bad = re.findall(r'^test (.*) \.\.\. FAILED', out, re.M)
        if 'error: could not compile' in out or 'error[' in out:
            print(s['id'], 'DOES NOT BUILD', out[-1500:]); continue
        rc1, o1 = sh(f'bash {d}/demo.sh')
        sh('git checkout -q -- .')
        rc0, o0 = sh(f'bash {d}/demo.sh')
        ok = not bad and rc1 != 0 and rc0 == 0 and 'could not compile' not in o1
        print(s['id'], 'ok' if ok else 'BAD', f'tests passed={npass} failed={bad[:5]} demo patched={rc1} clean={rc0}', o1.strip().split('\n')[-3:][:2] if ok else (o1[-800:], o0[-800:]), flush=True)

def catch(ids, allp=False):
    for i in ids:
        m = json.load(open(f'{V}/seeded/{i}/meta.json'))
        r = subprocess.run(['git', '-C', '/repo', 'apply', f'{V}/seeded/{i}/patch.diff'], capture_output=True, text=True)
        if r.returncode:
            print(i, 'patch does not apply', r.stderr); continue
        try:
            p = subprocess.run(['python3', f'{V}/check.py', m['property'], 'quick'], capture_output=True, text=True, cwd=V, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            v = [l for l in p.stdout.split('\n') if l.startswith('VIOLATION')]
            e = json.load(open(f'{V}/evidence/{m["property"]}.json')) if os.path.exists(f'{V}/evidence/{m["property"]}.json') else {}
            print(i, m['property'], 'exit', p.returncode, v[:1], [l for l in p.stdout.split('\n') if 'undecided' in l.lower() or 'FAILED' in l or 'failed' in l][:4], flush=True)
        finally:
            subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])

if __name__ == '__main__':
    if sys.argv[1] == 'make':
        g = {}
        exec(open(sys.argv[2]).read(), g)
        only = sys.argv[3:]
        make([s for s in g['SEEDS'] if not only or s['id'] in only])
    else:
        catch(sys.argv[2:] or sorted(os.listdir(V + '/seeded')))
