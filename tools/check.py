#!/usr/bin/env python3
"""check.py ID : decides property ID for /repo's current tree (see DESIGN.md, "How a check decides")."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import nativelib
HERE = nativelib.HERE
T0 = time.time()

def known_keys(pid):
    out = {}
    for l in open(os.path.join(HERE, 'known_findings.txt')):
        m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
        if m and m.group(1) == pid: out[m.group(2)] = m.group(3)
    return out

def run_native(pid, out, env, res):
    try:
        exe, log = nativelib.build(out, os.path.join(HERE, 'native', pid.lower() + '.cpp'))
        if not exe:
            res.update(status='nobuild', log=log[-6000:]); return
        p = subprocess.run([exe], cwd=out, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=600)
        o = p.stdout
        res['log'] = o[-20000:]
        res['known'] = re.findall(r'^KNOWN (\S+) (.*)$', o, re.M)
        m = re.search(r'^OK cases=(\d+)$', o, re.M)
        if p.returncode == 0 and m:
            res.update(status='ok', cases=int(m.group(1)))
        else:
            f = re.search(r'^FAIL (.*)$', o, re.M)
            res.update(status='fail', what=f.group(1) if f else 'the harness ended with status %d' % p.returncode)
            if p.returncode == 4: res['status'] = 'timeout'
    except subprocess.TimeoutExpired:
        res.update(status='timeout', log='')
    except Exception as e:
        res.update(status='nobuild', log=repr(e))

def run_proof(pid, out, env, res):
    drv = os.path.join(HERE, 'cppvc', 'run.py')
    f = os.path.join(out, 'proof.json')
    try:
        p = subprocess.run(['python3-vt', drv, pid, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env, timeout=780)
        res['log'] = p.stdout[-20000:]
        if os.path.exists(f): res.update(json.load(open(f)))
        else: res['error'] = 'the verifier ended with status %d' % p.returncode
    except subprocess.TimeoutExpired:
        res['error'] = 'the verifier did not finish in time'
    if os.environ.get('CPPVC_VERBOSE'): print(res.get('log', ''))

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    env = dict(os.environ, VERIF_TIER=tier, VERIF_SEED=str(seed), ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', OMP_NUM_THREADS='2')
    out = tempfile.mkdtemp(prefix='snncheck-')
    nat, prf = {}, {}
    try:
        t1 = threading.Thread(target=run_native, args=(pid, out, env, nat)); t2 = threading.Thread(target=run_proof, args=(pid, out, env, prf))
        t1.start(); t2.start(); t1.join(); t2.join()
    finally:
        shutil.rmtree(out, ignore_errors=True)
    obs = prf.get('obligations', [])
    done = [o for o in obs if o['status'] == 'proved']; bad = [o for o in obs if o['status'] == 'failed']; unk = [o for o in obs if o['status'] not in ('proved', 'failed')]
    if prf.get('error'): unk = unk + [{'name': prf['error'], 'status': 'unknown'}]
    listed = known_keys(pid); lines = []; violation = None
    for k, d in nat.get('known', []):
        if k in listed: lines.append('KNOWN-FINDING: property=%s %s' % (pid, listed[k]))
        else: violation = ('replayed', 'unlisted: ' + k + ' ' + d)
    for k in prf.get('known', []):
        l = 'KNOWN-FINDING: property=%s %s' % (pid, listed.get(k, ''))
        if k in listed and l not in lines: lines.append(l)
        elif k not in listed: violation = ('proof', 'unlisted: ' + k)
    if nat.get('status') == 'fail': violation = ('replayed', nat['what'])
    elif bad and not violation: violation = ('proof', bad[0]['name'])
    complete = bool(obs) and not bad and not unk
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    for l in lines: print(l)
    level = prf.get('level', 'proof') if complete else 'exploration'
    cov = {'obligations': len(obs), 'discharged': len(done), 'checker_cmd': 'python3-vt cppvc/run.py %s OUT.json' % pid, 'trusted_base': prf.get('trusted', []),
           'functions_under_contract': prf.get('functions', []), 'back_ends': prf.get('backends', {}), 'solver_seconds': prf.get('solver_seconds', 0),
           'obligation_list': [{k: o.get(k) for k in ('name', 'status', 'backend', 'seconds')} for o in obs],
           'undischarged': [o['name'] for o in bad + unk],
           'bounded_stand_in': {'harness': 'native/%s.cpp' % pid.lower(), 'result': nat.get('status'), 'cases': nat.get('cases', 0), 'label': 'bounded: the listed cases only, on the real classes with sanitizers; not counted as proved'},
           'evaluations': nat.get('cases', 0), 'distinct_nontrivial': nat.get('cases', 0), 'rule': 'cases counted by native/%s.cpp, each one a generated input, architecture or history checked against an independent oracle' % pid.lower(),
           'samples': [nat.get('log', '')[-300:]]}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': prf.get('assumptions', []), 'wall_s': round(time.time() - T0, 2), 'violations': 1 if violation else 0}
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    if violation:
        rp = os.path.join(HERE, 'evidence', 'replay-%s.txt' % pid)
        with open(rp, 'w') as f:
            f.write('property %s\n%s\n\n' % (pid, violation[1]))
            f.write('Replay: VERIF_SEED=%d VERIF_TIER=%s python3 tools/check.py %s (native/%s.cpp against /repo)\n\n' % (seed, tier, pid, pid.lower()))
            f.write('failed obligations:\n' + ''.join('  %s [%s]\n%s\n' % (o['name'], o['status'], o.get('detail', '')) for o in bad))
            f.write('\nnative harness (%s):\n%s\n\nverifier output:\n%s\n' % (nat.get('status'), nat.get('log', ''), prf.get('log', '')))
        print('%s: %s' % (pid, violation[1]))
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if violation[0] == 'replayed' else ' no-failing-input-found'))
        return 1
    print('%s: %d of %d obligations discharged; bounded stand-in: %s, %d cases; %.0f s' % (pid, len(done), len(obs), nat.get('status'), nat.get('cases', 0), time.time() - T0))
    for o in unk: print('  undecided: %s %s' % (o['name'], o.get('detail', '')[:300]))
    if complete or nat.get('status') == 'ok': return 0
    print('no answer: neither the verifier nor the native harness could decide (%s)\n%s' % (nat.get('status'), nat.get('log', '')[-3000:]))
    return 2
sys.exit(main())
