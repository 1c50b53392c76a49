"""run.py ID OUT.json [unit...]: extracts the AST of /repo's current sources, generates the obligations of the property's verification
units (cppvc/props/<id>.py) and discharges them. Every unit runs in its own process."""
import sys, os, json, time, importlib, tempfile, traceback, signal, collections
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import multiprocessing as mp

def ulimit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))

def looseloop(o):
    import re
    from term import T
    def heads(t):
        out = set(); seen = set(); st = [t]
        while st:
            x = st.pop()
            if id(x) in seen or not isinstance(x, (T, tuple)): continue
            seen.add(id(x))
            if isinstance(x, tuple): st += x; continue
            if x.op == 'app' and isinstance(x.args[0], str) and re.match(r'L\d+\.', x.args[0]): out.add(x.args[0])
            st += [a for a in x.args if isinstance(a, (T, tuple))]
        return out
    return bool(heads(o.goal)) or any(heads(h) for h in o.hyps)
def do_unit(pid, name, f, P, q, tlimit):
    from vc import Unsupported, decide1, vacuity
    import solve
    t0 = time.time()
    res = {'unit': name, 'obligations': [], 'functions': [], 'trusted': [], 'assumptions': [], 'known': []}
    try:
        ulimit()
        solve.DEADLINE = t0 + tlimit
        exs = f(P)
        if not isinstance(exs, (list, tuple)): exs = [exs]
        res['symex'] = round(time.time() - t0, 2)
        cnt = collections.Counter()
        for ex in exs:
            decide1(ex.obs, deadline=t0 + tlimit)
            for o in ex.obs:
                # the steps of a loop without a closed form are constrained only by the invariants found for it: a countermodel of such an obligation may be no run of the code
                if o.status == 'failed' and looseloop(o): o.status = 'unknown'
            vac = vacuity(ex)
            for o in ex.obs:
                nm = '%s: %s%s' % (name, o.name, '' if o.kind in ('post', 'inv', 'loop') else ' (%s)' % o.fn)
                cnt[nm] += 1
                if cnt[nm] > 1: nm += ' #%d' % cnt[nm]
                d = {'name': nm, 'status': o.status, 'backend': o.backend, 'seconds': round(o.time, 2), 'kind': o.kind}
                if o.status != 'proved': d['detail'] = 'at %s: %s%s' % (o.loc, repr(o.goal)[:1500], '\ncountermodel: %s' % (o.info,) if o.info else '')
                res['obligations'].append(d)
            for nm, st in vac:
                res['obligations'].append({'name': '%s: hypotheses of %s are satisfiable' % (name, nm), 'status': st, 'backend': 'z3', 'seconds': 0, 'kind': 'vacuity'})
            res['functions'] += sorted(ex.prog.qual.get(m, m) for m in ex.inlined | set(getattr(ex, 'contracted', ())))
            res['trusted'] += sorted(ex.trusted); res['assumptions'] += sorted(ex.assumed)
            res['known'] += getattr(ex, 'known', [])
    except Unsupported as e:
        res['error'] = 'not supported: %s' % e; res['trace'] = traceback.format_exc()[-1500:]
    except Exception as e:
        res['error'] = '%s: %s' % (type(e).__name__, e); res['trace'] = traceback.format_exc()[-1500:]
    res['solver_seconds'] = solve.STATS['time']
    res['seconds'] = round(time.time() - t0, 2)
    q.put(res)

def main():
    pid, out = sys.argv[1], sys.argv[2]
    only = sys.argv[3:]
    t0 = time.time()
    budget = float(os.environ.get('CPPVC_BUDGET', '600'))
    try: mod = importlib.import_module('props.' + pid.lower())
    except ModuleNotFoundError:
        json.dump({'obligations': [], 'error': 'no contracts for this property'}, open(out, 'w')); return
    from vc import program
    P = program(extra=getattr(mod, 'EXTRA', ''))
    res = {'obligations': [], 'functions': [], 'trusted': [], 'assumptions': list(getattr(mod, 'ASSUME', [])), 'known': [], 'backends': {}, 'solver_seconds': 0, 'level': getattr(mod, 'LEVEL', 'proof'), 'extraction_seconds': round(time.time() - t0, 1)}
    errs = ['AST of %s: %s' % (f, e[-300:]) for f, e in P.errors]
    ctx = mp.get_context('fork')
    units = [(n, f) for n, f in mod.UNITS if not only or n in only]
    todo = list(units); running = {}; results = {}
    jobs = int(os.environ.get('CPPVC_JOBS', '8'))
    while todo or running:
        while todo and len(running) < jobs:
            n, f = todo.pop(0); q = ctx.SimpleQueue()
            left = max(20, budget - (time.time() - t0))
            p = ctx.Process(target=do_unit, args=(pid, n, f, P, q, min(left, float(getattr(mod, 'UNIT_LIMIT', 500)))))
            p.start(); running[n] = (p, q)
        time.sleep(0.02)
        for n, (p, q) in list(running.items()):
            if not q.empty():
                results[n] = q.get(); p.join(5)
                if p.is_alive(): p.kill()
                del running[n]
            elif not p.is_alive():
                results[n] = {'unit': n, 'error': 'the verifier process ended (%s)' % p.exitcode, 'obligations': []}; del running[n]
            elif time.time() - t0 > budget + 20:
                p.kill(); results[n] = {'unit': n, 'error': 'time limit', 'obligations': []}; del running[n]
    for n, _ in units:
        r = results[n]
        res['obligations'] += r['obligations']
        for k in ('functions', 'trusted', 'assumptions', 'known'): res[k] += [x for x in r.get(k, []) if x not in res[k]]
        res['solver_seconds'] += r.get('solver_seconds', 0)
        for o in r['obligations']:
            if o['status'] == 'proved': res['backends'][o['backend']] = res['backends'].get(o['backend'], 0) + 1
        if r.get('error'): res['obligations'].append({'name': '%s: %s' % (n, r['error']), 'status': 'unknown', 'detail': r.get('trace', ''), 'backend': '', 'seconds': 0, 'kind': 'error'})
        np = sum(o['status'] == 'proved' for o in r['obligations'])
        print('%-40s %4d/%4d  symex %6.1fs  total %6.1fs %s' % (n, np, len(r['obligations']), r.get('symex', 0), r.get('seconds', 0), r.get('error', '')))
        if r.get('error') and os.environ.get('CPPVC_TRACE'): print(r.get('trace', ''))
        for o in r['obligations']:
            if o['status'] != 'proved': print('   %s: %s (%.1fs)\n        %s' % (o['status'], o['name'], o.get('seconds', 0), o.get('detail', '')[:int(os.environ.get('CPPVC_DETAIL', '400'))]))
    res['solver_seconds'] = round(res['solver_seconds'], 1)
    if errs: res['error'] = errs[0]
    json.dump(res, open(out, 'w'), indent=1)
    print('%s: %d obligations, %d proved, %.1f s' % (pid, len(res['obligations']), sum(o['status'] == 'proved' for o in res['obligations']), time.time() - t0))
main()
