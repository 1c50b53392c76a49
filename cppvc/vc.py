"""Function under contract: set up a symbolic state, run the real function, state postconditions."""
import time, os, sys, pickle
from term import *
from mem import *
from prog import Prog, Unsupported, parse_type, norm_type
from symex import *
import solve

_prog = {}
def program(root=None, extra=''):
    """AST of all sources of the repository; extra: text of an additional translation unit that instantiates templates of its headers"""
    import tempfile
    root = root or os.environ.get('REPO', '/repo')
    k = (root, extra)
    if k not in _prog:
        dev = os.environ.get('CPPVC_DEV')      # development only: a pickled program
        if dev and extra:
            import hashlib; dev += hashlib.md5(extra.encode()).hexdigest()[:6]
        if dev and os.path.exists(dev): _prog[k] = pickle.load(open(dev, 'rb'))
        else:
            with tempfile.TemporaryDirectory(prefix='cppvc-') as d:
                fs = []
                if extra:
                    fs = [os.path.join(d, 'extra.cpp')]; open(fs[0], 'w').write(extra)
                _prog[k] = Prog(root, extra=fs)
            if dev: pickle.dump(_prog[k], open(dev, 'wb'), protocol=4)
    return _prog[k]

class Outcome:
    def __init__(self, st, val, thrown=None): self.st = st; self.val = val; self.thrown = thrown

class Ctx(Sym):
    """one verification unit"""
    def __init__(self, prog, name, contracts=None):
        super().__init__(prog, contracts, name)
        fr = Frame(None, None); fr.depth = 0; fr.chain_key = ''; fr.retref = False
        self.frame = fr
        self.outs = {'ret': [], 'brk': [], 'cont': [], 'thr': []}
        self.unit = name; self.covers = []
    def obj(self, name, ty, wf=True):
        ty = parse_type(self.prog, ty) if isinstance(ty, str) else ty
        t = self.freshtree(name, ty)
        if wf: self.facts += self.wellformed(t)
        return self.newroot(name, t)
    def term(self, name, sort): return var(name, sort)
    def req(self, *ts):
        for t in ts: self.assume(t)
    def run(self, fn, this, args, ctor=False):
        """call fn; returns outcomes"""
        n0 = len(self.outs['thr'])
        if fn.tu is not None: self.frame.tu = fn.tu
        self.rettrees = None
        res = []
        try:
            if ctor: self.run_ctor(fn, this, args, None); v = this
            else: v = self.invoke(fn, this, args, None)
            res.append(Outcome(self.S, v))
        except Exit: pass
        for st, what in self.outs['thr'][n0:]: res.append(Outcome(st, None, what))
        del self.outs['thr'][n0:]
        return res
    def go(self, fn, this=None, args=(), throws=None, ctor=False):
        """run a function that must not throw (or exactly under the condition throws); continues in the normal state"""
        pre = self.S
        res = self.run(fn, this, list(args), ctor)
        norm = None
        for o in res:
            if o.thrown is None: norm = o
            else:
                self.S = o.st
                self.oblig('post', 'no exception (%s) %s' % (o.thrown, self.unit) if throws is None else 'throws %s only when required' % o.thrown, throws if throws is not None else FALSE)
        if norm is None: return None
        self.S = norm.st
        if throws is not None: self.oblig('post', 'throws when required', not_(throws))
        return norm.val
    def create(self, name, cls, fn, args=(), throws=None):
        """an object of class cls built by the constructor fn"""
        lv = self.newroot(name, self.rawobj(cls))
        return self.go(fn, lv, args, throws, ctor=True)
    def lemma(self, name, t):
        """a proven fact about the current facts"""
        self.oblig('post', 'lemma: ' + name, t)
    def induction(self, name, P, lo=None, using=None):
        """proves P(lo) and P(n) => P(n+1), then uses P(n) for every n >= lo"""
        lo = lo if lo is not None else I(0)
        n = fresh('n', 'Int')
        self.post('lemma %s: base' % name, P(lo), using)
        s = self.S
        h = and_(le(lo, n), P(n))
        self.S = s.fork(h)
        self.post('lemma %s: step' % name, P(add(n, I(1))), None if using is None else list(using) + [h])
        self.S = s
        f = forall(['Int'], lambda k: implies(le(lo, k), P(k)))
        self.assume(f)
        return f
    def axiom(self, t):
        """assume an axiom instance and return it for use in using=[...]"""
        self.facts.append(t); return t
    def post(self, name, t, using=None):
        """using: the facts the proof may use (each of them is a current hypothesis); None: all"""
        if using is None: self.oblig('post', name, t); return t
        have = set(self.facts) | set(self.S.pc)
        for h in self.S.pc:
            if h.op == 'and': have.update(h.args)
        for u in using:
            if u is not TRUE and u not in have and implies(self.pcf(), u) not in have: raise Unsupported('hint of %s is not a hypothesis: %r' % (name, u))
        self.obs.append(Oblig(name, list(using) if t is not TRUE else [], t, '', 'post', self.curfn()))
        self.assume(t)
        return t
    def cover(self, name):
        """vacuity guard: the current hypotheses must not be contradictory"""
        self.covers.append((name, self.hyps()))

def decide(obs, covers, timeout=6000, budget=600, jobs=8, model=True):
    """discharge obligations in parallel (fork)"""
    import multiprocessing as mp
    uniq = {}
    for o in obs:
        k = (tuple(sorted({h.id for h in o.hyps})), o.goal.id)
        uniq.setdefault(k, []).append(o)
    work = list(uniq.values())
    t0 = time.time()
    global _work
    _work = [l[0] for l in work]
    def fill(l, r):
        for o in l: o.status, o.backend, o.info, o.time = r
    quick = []
    for i, l in enumerate(work):
        if l[0].goal is TRUE: fill(l, ('proved', 'simplifier', None, 0.0))
        else: quick.append(i)
    if quick:
        with mp.Pool(jobs) as pool:
            rs = {i: pool.apply_async(_one, (i, timeout, model)) for i in quick}
            for i in quick:
                left = max(1, budget - (time.time() - t0))
                try: r = rs[i].get(left)
                except mp.TimeoutError: r = ('unknown', 'budget', None, 0.0)
                except Exception as e: r = ('unknown', 'error', repr(e), 0.0)
                fill(work[i], r)
            pool.terminate()
def decide1(obs, deadline=None, timeout=10000):
    """discharge obligations one after the other"""
    done = {}
    for o in obs:
        k = (frozenset(h.id for h in o.hyps), o.goal.id)
        if o.goal is TRUE: o.status, o.backend, o.time = 'proved', 'simplifier', 0.0; continue
        if k not in done:
            if deadline and time.time() > deadline: done[k] = ('unknown', 'time limit', None, 0.0)
            else:
                global _work
                _work = [o]; done[k] = _one(0, timeout, True)
        o.status, o.backend, o.info, o.time = done[k]
        if o.status not in ('proved', 'failed'): o.status = 'unknown'
def vacuity(ex):
    out = []
    for nm, hy in (ex.covers or []) + [('the final state', ex.hyps())]:
        st, _, _ = solve.prove(hy, FALSE, timeout=3000, rounds=1, nl=False)
        out.append((nm, 'failed' if st == 'proved' else 'proved'))
    return out
def _one(i, timeout, model):
    o = _work[i]
    t = time.time()
    try:
        st, be, info = 'unknown', '', None
        core = [h for h in o.hyps if h not in o.aux]
        small = [h for h in solve.units(o.hyps) if not any(x.op in ('forall', 'sum') for x in subterms([h]))]
        if len(small) < len(o.hyps) and len(small) < 80 and not any(x.op in ('forall', 'sum') for x in subterms([o.goal])):
            if solve.prove(small, o.goal, timeout=500, rounds=1, nl=False)[0] == 'proved': return 'proved', 'z3', None, time.time() - t
        for rounds, to, flat in ((2, min(2000, timeout), True), (2, min(2000, timeout), None), (1, min(2000, timeout), False), (3, timeout, True), (3, min(4000, timeout), False)):
            if flat is None:
                if len(core) < len(o.hyps) and any(solve.prove(core, o.goal, timeout=to, rounds=k, nl=False)[0] == 'proved' for k in (2, 4, 6)): st, be, info = 'proved', 'z3', None; break
                continue
            r = solve.prove(o.hyps, o.goal, timeout=to, want_model=model, rounds=rounds, flat=flat)
            if r[0] == 'proved' or flat and rounds > 1: st, be, info = r
            if st == 'proved': break
    except RecursionError: st, be, info = 'unknown', 'recursion', None
    except Exception as e: st, be, info = 'unknown', 'error', repr(e)
    return st, be, info, time.time() - t
