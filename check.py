#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property on /repo's current working tree:
 1. builds the extractor (vx) and the bounded harness from source;
 2. vx extracts the functions under contract from /repo and merges the contracts of proofs/ in;
    Verus discharges the obligations, function by function;
 3. the harness runs real cases of the property against the real crates (bounded; never counted as proved).
exit 0: held.  exit 1: VIOLATION line.  exit 2: the machinery itself failed.
"""
import sys, os, re, json, glob, time, subprocess, shutil, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VX_REPO', '/repo')
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
T0 = time.time()
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=V + '/target', RUSTUP_TOOLCHAIN='nightly-x86_64-unknown-linux-gnu')
VENV = {k: v for k, v in os.environ.items() if k != 'RUSTUP_TOOLCHAIN'}
OUT = f'{V}/evidence/work/{PROP}'
VX, VH = V + '/target/debug/vx', V + '/target/debug/vharness'
CHECKER = 'verus --triggers-mode silent --verify-root FILE.rs'

def say(*a):
    print(*a, flush=True)

def die(msg):
    say('ERROR', msg)
    sys.exit(2)

def tree_hash(d, pats=('.rs', '.toml', '.pest', '.lock')):
    h = hashlib.sha256()
    for root, dirs, files in os.walk(d):
        dirs[:] = sorted(x for x in dirs if x not in ('target', '.git', 'node_modules'))
        for f in sorted(files):
            if f.endswith(pats):
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(open(p, 'rb').read())
    return h.hexdigest()

def build():
    # cargo goes by modification times: when the sources differ from those last built here, build the crates of /repo again
    stamp = V + '/target/repo.hash'
    h = tree_hash(REPO + '/crates') + tree_hash(V + '/harness') + tree_hash(V + '/vx')
    old = open(stamp).read() if os.path.exists(stamp) else ''
    if old == h and os.path.exists(VX) and os.path.exists(VH):
        return None
    os.makedirs(V + '/target', exist_ok=True)
    for d in ('vx', 'harness'):
        if os.path.exists(stamp):
            os.unlink(stamp)
        if d == 'harness' and old:
            now = time.time()
            # the crates are path dependencies: mark them changed through the fingerprint cargo keeps
            for fp in glob.glob(V + '/target/debug/.fingerprint/jsonpath_rfc9535*') + glob.glob(V + '/target/debug/.fingerprint/vharness*'):
                shutil.rmtree(fp, ignore_errors=True)
        p = subprocess.run(['cargo', 'build', '--offline', '-q', '--manifest-path', f'{V}/{d}/Cargo.toml'], env=ENV, capture_output=True, text=True, cwd=f'{V}/{d}')
        if p.returncode:
            if d == 'vx':
                die('vx does not build:\n' + p.stderr[-3000:])
            return p.stderr
    open(stamp, 'w').write(h)
    return None

# ---------------------------------------------------------------- proofs
GENUINE = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied', 'possible arithmetic',
           'decreases not satisfied', 'could not prove termination', 'possible division by zero', 'unreachable', 'recommendation not met', 'cannot show',
           'possible bit shift', 'unable to prove post', 'loop ensures', 'split assertion', 'split postcondition', 'split precondition')

def units():
    return sorted(os.path.basename(f) for f in glob.glob(V + '/proofs/*.vx') if open(f).read().startswith('#unit') or '\n#crate ' in open(f).read() )

def extract():
    shutil.rmtree(OUT, ignore_errors=True)
    os.makedirs(OUT)
    us = units()
    p = subprocess.run([VX, V + '/proofs', REPO, OUT] + us, capture_output=True, text=True)
    if p.returncode:
        die('vx: ' + p.stdout + p.stderr)
    return [json.load(open(f)) for f in sorted(glob.glob(OUT + '/*.json')) if not f.endswith('__vacuity.json')]

def verus(path, whole=False, timeout=150, extra=()):
    t = time.time()
    cmd = ['timeout', str(timeout), 'verus', '--triggers-mode', 'silent', '--multiple-errors', '20', '--output-json', '--time'] + ([] if whole else ['--verify-root']) + list(extra) + [path]
    p = subprocess.run(cmd, capture_output=True, text=True, cwd=OUT, env=VENV)
    r = {'rc': p.returncode, 'err': p.stderr, 'wall': time.time() - t, 'verified': 0, 'errors': 0, 'smt_ms': 0, 'ran': False}
    try:
        j = json.loads(p.stdout)
        v = j['verification-results']
        r['verified'], r['errors'] = v.get('verified', 0), v.get('errors', 0)
        r['ran'] = not v.get('encountered-vir-error', False) and 'verified' in v
        r['smt_ms'] = j.get('times-ms', {}).get('smt', {}).get('total', 0) if isinstance(j.get('times-ms', {}).get('smt'), dict) else 0
    except Exception:
        pass
    return r

def diagnose(m, r):
    """-> list of (kind, function, message) ; kind: failed | undecided"""
    res = []
    if r['rc'] == 124:
        return [('undecided', m['group'], 'verifier timeout')]
    blocks = [b for b in re.split(r'\n(?=(?:error|warning|note)[:\[])', '\n' + r['err']) if b.strip().startswith('error')]
    lines = open(m['rs']).read().split('\n')
    for b in blocks:
        b = b.strip()
        head = b.split('\n')[0]
        if 'aborting due to' in head:
            continue
        at = re.search(r'-->\s*\S*?:(\d+):\d+', b)
        nums = [int(x) for x in re.findall(r'^\s*(\d+)\s*\|', b, re.M)]
        if at:
            nums.insert(0, int(at.group(1)))
        fn = next((f['path'] for n in nums for f in m['fns'] if f['from'] <= n <= f['to']), m['group'])
        if any(g in head for g in GENUINE) and 'rlimit' not in head and r['ran']:
            res.append(('failed', fn, head + (' at: ' + lines[nums[0] - 1].strip() if nums and nums[0] <= len(lines) else '')))
        else:
            res.append(('undecided', fn, head))
    if not res and (r['errors'] or r['rc'] or not r['ran']):
        res.append(('undecided', m['group'], 'verifier gave no result: ' + r['err'][-300:]))
    return res

def proofs(prop, tier):
    metas = extract()
    base = json.load(open(V + '/baseline/shapes.json')) if os.path.exists(V + '/baseline/shapes.json') else {}
    mine = [m for m in metas if any(prop in f.get('props', []) for f in m['fns'])]
    used_units = {m['unit'] for m in mine}
    jobs = [(m, 'fn') for m in mine] + [(m, 'prelude') for m in metas if m['group'] == 'prelude' and m['unit'] in used_units]
    vac = [json.load(open(f'{OUT}/{u}__vacuity.json')) for u in sorted(used_units)]
    contracted = {(m['unit'], f['file'].split('/src/')[-1] + ':' + f['path']) for m in metas for f in m['fns'] if not f.get('extra')}
    def job(x):
        m, k = x
        if k == 'vac':
            return x, verus(m['rs'])
        return x, verus(m['rs'], whole=(k == 'prelude'), timeout=200 if tier == 'quick' else 600)
    todo = jobs + [(v, 'vac') for v in vac]
    if tier == 'thorough':
        todo += [({'rs': m['rs'].replace('.rs', '__smoke.rs'), 'unit': m['unit'], 'group': m['group'], 'smoke': m['smoke']}, 'smoke') for m in mine if m.get('smoke')]
        todo += [(dict(m), 'seed%d' % k) for m in mine for k in (1,)]
    def job2(x):
        m, k = x
        if k == 'smoke':
            return x, verus(m['rs'], timeout=300)
        if k.startswith('seed'):
            return x, verus(m['rs'], timeout=600, extra=('--smt-option', 'smt.random_seed=%d' % (SEED + 17)))
        return job(x)
    st = {'obligations': 0, 'discharged': 0, 'smt_ms': 0, 'functions': [], 'failed': [], 'undecided': [], 'vacuity': [], 'prelude': {}, 'assumed': set(), 'dropped': set(), 'stability': {'rerun': 0, 'ok': 0}}
    with ThreadPoolExecutor(8) as ex:
        for (m, k), r in ex.map(job2, todo):
            st['smt_ms'] += r['smt_ms']
            if k == 'vac':
                n = len(re.findall(r'^error: assertion failed', r['err'], re.M))
                st['vacuity'].append({'unit': m['unit'], 'preconditions_and_axioms_reachable': n, 'expected': m['vacuity']})
                if r['ran'] and n != m['vacuity']:
                    st['undecided'].append((m['unit'], 'vacuity', f'{m["vacuity"] - n} contracts are unsatisfiable'))
                continue
            if k == 'smoke':
                if r['ran'] and r['errors'] < m['smoke']:
                    st['undecided'].append((m['group'], 'smoke', 'an impossible postcondition is accepted'))
                st.setdefault('smoke', {'checked': 0})['checked'] += m['smoke']
                continue
            if k.startswith('seed'):
                st['stability']['rerun'] += 1
                st['stability']['ok'] += int(r['ran'] and r['errors'] == 0)
                continue
            if k == 'prelude':
                st['prelude'][m['unit']] = {'lemmas_and_stubs_verified': r['verified'], 'errors': r['errors']}
                st['obligations'] += r['verified'] + max(r['errors'], 0 if r['ran'] else 1)
                st['discharged'] += r['verified']
                if r['errors'] or not r['ran']:
                    d = diagnose(m, r)
                    st['undecided'] += [(m['unit'] + '/prelude', f, w) for _, f, w in d]
                continue
            key = m['unit'] + '/' + m['group']
            d = diagnose(m, r) if (r['rc'] or r['errors'] or not r['ran']) else []
            why = list(m['lost'])
            if m['uncontracted']:
                why.append('calls functions without a contract: ' + ', '.join(m['uncontracted']))
            for f in m['fns']:
                b = base.get(m['unit'] + '/' + f['path'])
                if not f.get('extra') and b is not None and b != f['shape']:
                    why.append(f['path'] + ' has another shape than the one the contract was written for')
            fns = [f for f in m['fns'] if not f.get('extra')]
            if r['ran']:
                st['obligations'] += r['verified'] + (r['errors'] or (len(fns) if d else 0))
                st['discharged'] += r['verified']
            else:
                st['obligations'] += len(fns)
            for f in fns:
                st['functions'].append({'unit': m['unit'], 'function': f['file'] + '::' + f['path'], 'proved': not d, 'smt_ms': r['smt_ms']})
                for x in f.get('dropped', []):
                    st['dropped'].add(x)
            for kind, f, w in d:
                if kind == 'failed' and not why:
                    st['failed'].append((key, f, w))
                else:
                    st['undecided'].append((key, f, w + (' [' + '; '.join(why) + ']' if why else '')))
            for a in m['assumed']:
                if (m['unit'], a) not in contracted:
                    st['assumed'].add(m['unit'] + ': ' + a)
    st['trusted'] = trusted(used_units)
    return st

def trusted(us):
    """a mechanical scan of the generated files for everything taken on trust"""
    t = set()
    for u in us:
        f = f'{OUT}/{u}__prelude.rs'
        if not os.path.exists(f):
            continue
        L = open(f).read().split('\n')
        for i, l in enumerate(L):
            if re.search(r'\bassume\s*\(|\badmit\s*\(', l):
                t.add(f'assume/admit in prelude: {l.strip()[:120]}')
            if 'assume_specification' in l:
                t.add('contract of std assumed: ' + re.sub(r'\s+', ' ', l.strip())[:120])
            if re.search(r'axiom fn (\w+)', l):
                t.add('axiom ' + re.search(r'axiom fn (\w+)', l).group(1) + ': ' + re.sub(r'.*ensures', 'ensures', l.strip())[:140])
            if 'external_body' in l:
                s = ' '.join(L[i:i + 3])
                g = re.search(r'fn (\w+)', s)
                if g:
                    t.add('trusted stand-in (external_body): ' + g.group(1))
            g = re.search(r'uninterp spec fn (\w+)', l)
            if g:
                t.add('uninterpreted: ' + g.group(1))
    return sorted(t)

# ---------------------------------------------------------------- bounded cases
def harness(prop, tier, seed, tag):
    o = f'{OUT}.{tag}.json'
    p = subprocess.run(['timeout', '600', VH, 'run', prop, tier, str(seed), o, V + '/known/classes.json'], capture_output=True, text=True)
    if p.returncode or not os.path.exists(o):
        return {'error': f'harness rc={p.returncode} {p.stderr[-500:]}', 'cases': 0, 'failures': [], 'known_hit': []}
    j = json.load(open(o))
    os.unlink(o)
    return j

def main():
    os.makedirs(V + '/evidence/work', exist_ok=True)
    os.makedirs(V + '/evidence/replay', exist_ok=True)
    cfg = json.load(open(V + '/known/levels.json')).get(PROP, {})
    berr = build()
    if berr:
        die('the harness does not build against /repo:\n' + berr[-3000:])
    with ThreadPoolExecutor(2) as ex:
        fh = ex.submit(harness, PROP, TIER, SEED, 'h')
        st = proofs(PROP, TIER)
        h = fh.result()
    if 'error' in h:
        die(h['error'])
    deep = None
    if st['failed'] and not h['failures']:
        # an obligation that held fails: look harder for the input
        deep = harness(PROP, 'thorough', SEED + 1, 'deep')
        if not deep.get('failures'):
            deep = harness(PROP, 'thorough', SEED + 2, 'deep2')
        if deep.get('failures'):
            h['failures'] = deep['failures']
    rc, nviol, lines = 0, 0, []
    known = json.load(open(V + '/known/findings.json'))
    for k in known['findings']:
        if k['property'] == PROP and (not k.get('class') or k['class'] in json.dumps(h.get('known_hit'))):
            say(f'KNOWN-FINDING: property={PROP} {k["what_fails"]}')
    if h['failures']:
        rc, nviol = 1, len(h['failures'])
        f = f'{V}/evidence/replay/{PROP}.json'
        c = h['failures'][0]
        json.dump({'property': PROP, 'case': c['case'], 'what': c['what'], 'replay': f'{VH} replay {f}',
                   'failed_obligations': [list(x) for x in st['failed']], 'more_failing_cases': h['failures'][1:6]}, open(f, 'w'), indent=1)
        say('failing case:', json.dumps(c['case'])[:600])
        say('what:', str(c['what'])[:600])
        for x in st['failed'][:5]:
            say('failed obligation:', ' | '.join(x))
        say(f'VIOLATION property={PROP} replay={f}')
    elif st['failed']:
        rc, nviol = 1, len(st['failed'])
        f = f'{V}/evidence/replay/{PROP}.json'
        outs = {}
        for key, fn, w in st['failed']:
            m = key.replace('/', '__')
            outs.setdefault(key, []).append({'function': fn, 'verifier': w, 'file': f'{OUT}/{m}.rs'})
        json.dump({'property': PROP, 'failed_obligations': outs, 'checker_cmd': CHECKER,
                   'note': 'obligations that are discharged on the unchanged tree and fail on this one; no failing input was found'}, open(f, 'w'), indent=1)
        for x in st['failed'][:5]:
            say('failed obligation:', ' | '.join(x))
        say(f'VIOLATION property={PROP} replay={f} no-failing-input-found')
    for x in st['undecided'][:10]:
        say('undecided:', ' | '.join(x)[:300])
    nfun = len(st['functions'])
    level = cfg.get('level', 'proof')
    cov = {
        'obligations': st['obligations'], 'discharged': st['discharged'], 'checker_cmd': CHECKER + '   (back end: Z3 as shipped with Verus)',
        'trusted_base': st['trusted'] + ['contract assumed, function not verified: ' + a for a in sorted(st['assumed'])],
        'functions_under_contract': nfun, 'functions_proved': sum(f['proved'] for f in st['functions']), 'functions': st['functions'],
        'undecided': [' | '.join(x)[:400] for x in st['undecided']], 'failed_obligations': [' | '.join(x)[:400] for x in st['failed']],
        'vacuity': st['vacuity'], 'smoke': st.get('smoke'), 'prelude': st['prelude'], 'stability_rerun_other_seed': st['stability'] if TIER == 'thorough' else None,
        'solver_ms': st['smt_ms'], 'extraction_drops': sorted(st['dropped']),
        'not_covered_by_proof': cfg.get('gap', ''),
        'bounded_stand_in': {'label': 'bounded; not counted as proved', 'cases': h['cases'], 'skipped': h.get('skipped'), 'kinds': h.get('kinds'), 'space': h.get('space'), 'wall_s': h.get('wall_s'), 'deep_run_after_failed_obligation': (deep or {}).get('cases')},
    }
    if level != 'proof':
        cov['evaluations'] = h['cases']
        cov['distinct_nontrivial'] = h.get('distinct', max(0, h['cases'] - (h.get('skipped') or 0)))
        cov['rule'] = str(h.get('space'))[:600]
        cov['samples'] = h.get('samples') or [h.get('kinds')]
        cov['explanation'] = cfg.get('gap', '')
    ev = {'property': PROP, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': level, 'coverage': cov,
          'assumptions': cfg.get('assumptions', []) + BASE_ASSUMPTIONS, 'wall_s': round(time.time() - T0, 2), 'violations': nviol}
    json.dump(ev, open(f'{V}/evidence/{PROP}.json', 'w'), indent=1)
    say(f'{PROP}: {st["discharged"]}/{st["obligations"]} obligations, {cov["functions_proved"]}/{nfun} functions, {h["cases"]} bounded cases, {ev["wall_s"]} s')
    if not st['failed'] and not h['failures']:
        shutil.rmtree(OUT, ignore_errors=True)
    sys.exit(rc)

BASE_ASSUMPTIONS = [
    'the extraction of vx keeps the meaning of the functions: it moves function and type text unchanged except for the edits listed in proofs/README.md',
    'the stand-ins for std, serde_json and the iterator adapters (eager instead of lazy) have the meaning of the real ones',
    'rustc compiles the functions to what Verus takes them to mean; memory is sufficient',
]
main()
