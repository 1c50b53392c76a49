"""Loops without bounds: the state after t iterations is a function of t. Closed forms are guessed from one symbolic iteration and
proved by induction (obligations 'loop ... step'); what has no closed form stays an uninterpreted function of t defined by its recurrence,
about which contract supplied invariants are proved by induction."""
import itertools, os
from term import *
from mem import *
from prog import Unsupported
import solve
_lid = itertools.count()

class Loop:
    """handed to contract invariants"""
    def __init__(self, ex, n, lid, fn, no): self.ex = ex; self.node = n; self.lid = lid; self.fn = fn; self.no = no; self.t = None; self.T = None
    def tree(self, lv, tau):
        """value of location lv after tau iterations"""
        ex = self.ex; old = ex.S
        ex.S = self.state(tau)
        try: return ex.read(lv)
        finally: ex.S = old
    def lv(self, name):
        x = self.ex.locals_by_name.get(name)
        if x is None: raise KeyError(name)
        return x
    def scalar(self, sort):
        """tau -> value of the one local scalar of this sort that has no closed form"""
        l = [k for k in self.unsolved if k[1] == () and self.entry.mem[k[0]].sort == sort]
        assert len(l) == 1
        return lambda tau: self.at(l[0], tau)
    def __call__(self, name, tau): return self.tree(self.lv(name), tau)

def selpath(a, ix):
    for i in ix: a = sel(a, i)
    return a
def isctx(x): return True

class LoopMixin:
    def leafmap(self, st):
        out = {}
        for r, t in st.mem.items():
            if isinstance(t, T): out[(r, ())] = t
            elif isinstance(t, (Lambda, Fun, Str)): continue
            elif isinstance(t, Ptr): out[(r, ('ptr',))] = t
            else:
                for p, l in leaves(t): out[(r, p)] = l
        return out
    def diff(self, a, b, names):
        """leaves of state a (roots in names) that differ in state b"""
        out = set()
        for r in names:
            x, y = a.mem[r], b.mem.get(r)
            if y is None or x is y: continue
            if isinstance(x, Ptr) or isinstance(y, Ptr):
                if isinstance(x, Ptr) and isinstance(y, Ptr) and ((x.lv is None and y.lv is None) or (x.lv is not None and y.lv is not None and not isinstance(x.lv, T) and not isinstance(y.lv, T) and x.lv.same(y.lv))): continue
                raise Unsupported('pointer changed by a loop')
            if isinstance(x, T):
                if x is not y:
                    if not isinstance(y, T): raise Unsupported('value of another kind')
                    out.add((r, ()))
                continue
            lx = dict(leaves(x)); ly = dict(leaves(y))
            if set(lx) != set(ly): raise Unsupported('loop changes the shape of %s' % r)
            for p in lx:
                if lx[p] is not ly[p]: out.add((r, p))
            self.checkits(x, y)
        return out
    def checkits(self, x, y):
        if isinstance(x, It) and isinstance(y, It) and not x.lv.same(y.lv): raise Unsupported('iterator of another container')
    def withleaves(self, st, vals):
        mem = dict(st.mem)
        for (r, p), v in vals.items(): mem[r] = setleaf(mem[r], p, v)
        from symex import State
        return State(mem, st.pc)
    def oneiter(self, cond, body, inc, isolate):
        """run one iteration from self.S; returns (cond term, normal end state or None, exits{brk,ret,thr})"""
        old = self.outs
        outs = {'ret': [], 'brk': [], 'cont': [], 'thr': []}
        self.outs = outs
        try:
            end = None; c = FALSE
            try:
                from symex import State
                s0 = State(dict(self.S.mem), self.S.pc)
                c = self.simp(cond())
                if self.diff(s0, self.S, list(s0.mem)): raise Unsupported('loop condition with side effects')
                if c is FALSE: return c, None, outs
                self.S = self.S.fork(c)
                try:
                    body(); outs['cont'].append(self.S)
                except self.ExitT: pass
                if outs['cont']:
                    self.S, _ = self.merge([(s, None) for s in outs['cont']])
                    inc(); end = self.S
            except self.ExitT: pass
            return c, end, outs
        finally: self.outs = old
    def effects(self, cond):
        """does evaluating the condition change the state?"""
        entry = self.S; nf, no, old = len(self.facts), len(self.obs), self.outs
        oldmode = self.mode; self.mode = 'dry'
        self.outs = {'ret': [], 'brk': [], 'cont': [], 'thr': []}
        from symex import State
        self.S = State(dict(entry.mem), entry.pc)
        try:
            c = cond(); return bool(self.diff(entry, self.S, list(entry.mem)))
        except self.ExitT: return False
        finally:
            del self.facts[nf:]; del self.obs[no:]; self.S = entry; self.outs = old; self.mode = oldmode
    uit = ()
    def unroll(self, cond, body, inc, most=4):
        """a loop whose condition is a constant in every iteration, of at most so many iterations, is executed"""
        from symex import State
        entry = self.S; nf, no, uit = len(self.facts), len(self.obs), self.uit
        def give():
            del self.facts[nf:]; del self.obs[no:]; self.S = entry
            return False
        ends = []; ret = []; thr = []
        st = entry
        try:
            for k in range(most + 1):
                self.S = State(dict(st.mem), st.pc); self.uit = uit + (k,)
                before = self.S
                c = self.simp(cond())
                if c is FALSE: ends.append(before); break
                if c is not TRUE or k == most: return give()
                if self.diff(before, self.S, list(before.mem)): return give()
                self.S = State(dict(st.mem), st.pc)
                c, end, outs = self.oneiter(cond, body, inc, True)
                ends += outs['brk']; ret += outs['ret']; thr += outs['thr']
                if end is None: break
                st = end
        finally: self.uit = uit
        self.outs['ret'] += ret; self.outs['thr'] += thr
        if not ends: raise self.ExitT()
        self.S, _ = self.merge([(s, None) for s in ends])
        return True
    def loop(self, n, cond, body, inc):
        from symex import Exit, State
        self.ExitT = Exit
        import time
        if self.deadline and time.time() > self.deadline: raise Unsupported('time limit')
        if self.unroll(cond, body, inc): return
        if self.effects(cond):
            # for (; c; i) b  is  for (; true; i) { if (!c) break; b }
            cond0, body0 = cond, body
            def body():
                c = self.simp(cond0())
                self.outs['brk'].append(self.S.fork(not_(c))); self.S = self.S.fork(c); body0()
            cond = lambda: TRUE
        entry = self.S
        names = list(entry.mem)
        # a loop run again in the same place (dry runs first) has the same name; a name gets its definition once, in check mode
        lk = (n.get('id'), self.frame.chain_key, self.ctx, self.uit)
        used, lid = self.lids.get(lk, (True, None))
        if used: lid = next(_lid)
        self.lids[lk] = (self.mode == 'check', lid)
        fnname = self.curfn()
        # ordinal of the loop in its function
        fr = self.frame
        key = (id(fr.fn.node) if fr.fn else None)
        nos = self.loopids.setdefault(key, {})
        no = nos.setdefault(n.get('id'), len(nos))
        t = fresh('t', 'Int')
        oldctx, oldmode, nf, no_obs = self.ctx, self.mode, len(self.facts), len(self.obs)
        # constant condition at entry
        W = set()
        heads = {}
        def hav(Ws):
            vals = {}
            for (r, p) in Ws:
                e = getleaf(entry.mem[r], p) if p else entry.mem[r]
                h = 'L%d.%s.%s' % (lid, r, '.'.join(p)); heads[h] = (r, p)
                vals[(r, p)] = app(h, oldctx + (t,), e.sort)
            return vals
        def dry(vals):
            self.mode = 'dry'; self.ctx = oldctx + (t,)
            self.S = self.withleaves(entry, vals).fork(le(I(0), t))
            try: return self.oneiter(cond, body, inc, True)
            finally:
                self.mode = oldmode; self.ctx = oldctx
                del self.facts[nf:]; del self.obs[no_obs:]
        for rnd in range(6):
            vals = hav(W)
            st0 = self.withleaves(entry, vals)
            c, end, outs = dry(vals)
            new = set()
            for s in ([end] if end is not None else []) :
                new |= self.diff(st0, s, names)
            if new <= W: break
            W |= new
        else: raise Unsupported('loop write set')
        if c is FALSE and rnd == 0:
            # never entered (evaluate the condition once for its effects)
            cond(); return
        # ---- closed forms
        sol = {}
        points = {}
        endv = {}
        unres = set()
        hasexit = bool(outs['brk'] or outs['ret'] or outs['thr'])
        if end is not None:
            for k in W: endv[k] = getleaf(end.mem[k[0]], k[1]) if k[1] else end.mem[k[0]]
            unres = set(W)
            X = {k: v for k, v in hav(W).items()}
            progress = True
            while progress and unres:
                progress = False
                un = {X[k] for k in unres}
                for k in sorted(unres, key=str):
                    e = getleaf(entry.mem[k[0]], k[1]) if k[1] else entry.mem[k[0]]
                    f = self.closed(X[k], endv[k], e, t, un)
                    if f is not None:
                        sol[k] = f; unres.discard(k); progress = True
                        m = {X[k]: f(t)}
                        endv = {q: ctxsimp(self.substapp(v, m)) for q, v in endv.items()}
                        c = self.substapp(c, m)
                        break
                if progress: continue
                # arrays of which only one element (the same in every iteration) is changed: that element is a sequence of its own
                for k in sorted(unres, key=str):
                    e = getleaf(entry.mem[k[0]], k[1]) if k[1] else entry.mem[k[0]]
                    at1 = self.oneelement(X[k], endv[k], t, un)
                    if at1 is None: continue
                    f, one = self.elementform(k, e, at1, 'L%d.%s.%s@' % (lid, k[0], '.'.join(k[1])), oldctx)
                    sol[k] = f; points[k] = (at1, one); unres.discard(k); progress = True
                    m = {X[k]: f(t)}
                    endv = {q: ctxsimp(self.substapp(v, m)) for q, v in endv.items()}
                    c = self.substapp(c, m)
                    break
        if os.environ.get('CPPVC_TRACE') and oldmode == 'check':
            for k in sorted(unres, key=str): print('UNSOLVED', fnname, 'loop', no, k, '\n    X =', show(X[k]), '\n    Y =', show(endv[k])[:3000])
        def at(k, tau):
            if k in sol: return sol[k](tau)
            r, p = k
            e = getleaf(entry.mem[r], p) if p else entry.mem[r]
            if tau is I(0): return e
            return app('L%d.%s.%s' % (lid, r, '.'.join(p)), oldctx + (tau,), e.sort)
        def state(tau): return self.withleaves(entry, {k: at(k, tau) for k in W})
        if c is TRUE and not hasexit: raise Unsupported('endless loop')
        # ---- trip count
        T_ = None
        cl = None
        if c.op == 'le0' and not hasattr(self, 'noT'):
            p = c.args[0]
            coef = None; rest = I(0); ok = True
            for m, q in poly_items(p).items():
                if t in m:
                    if m == (t,): coef = q
                    else: ok = False
                else:
                    x = num(q, 'Int')
                    for a in m:
                        x = mul(x, a)
                    rest = add(rest, x)
            if ok and coef == 1 and not occurs(t, rest) and not self.mentions(rest, lid, unres):
                # t + rest <= 0   <=>  t < 1 - rest
                nn = sub(I(1), rest)
                T_ = nn if self.nonneg(nn) else ite(le(I(0), nn), nn, I(0))
            elif ok and coef == -1 and not occurs(t, rest) and not self.mentions(rest, lid, unres) and not hasexit:
                # once entered the condition stays true: the loop ends only when it is not entered
                self.S = entry
                self.oblig('loop', 'loop %d of %s ends' % (no, fnname), not_(subst(c, {t: I(0)})), n)
                cond(); return
        if c.op == 'not' and c.args[0].op == 'eq0':
            # counter != bound, reached from below: the loop ends after bound - start iterations when that is not negative
            nn = self.solvefor(c.args[0].args[0], t)
            if nn is not None and not self.mentions(nn, lid, unres) and self.nonneg(nn): T_ = nn
        freshT = T_ is None
        if freshT: T_ = app('T%d' % lid, oldctx, 'Int')
        # ---- the real pass
        L = Loop(self, n, lid, fnname, no); L.t = t; L.T = T_; L.state = state; L.entry = entry; L.vars = W; L.unsolved = sorted(unres, key=str); L.at = at
        cands = []; tries = []
        for g in self.cands:
            try:
                for x in g(self, L) or []:
                    if len(x) > 2: tries.append(x[:2])
                    else: cands.append(x)
            except (KeyError, AttributeError, AssertionError, StopIteration, IndexError): pass
        if tries: cands += self.houdini(entry, state, cands, tries, t, T_, freshT, W, sol, at, cond, body, inc, hasexit, lk, lid, points)
        def leafname(k): return k[0].split(':')[1] + ''.join('.' + x for x in k[1]) if ':' in k[0] else k[0] + ''.join('.' + x for x in k[1])
        self.S = entry
        for k, (at1, one) in points.items():
            self.assume(eq(one(None), selpath(getleaf(entry.mem[k[0]], k[1]) if k[1] else entry.mem[k[0]], at1)))
        for nm, P in cands:
            self.oblig('inv', 'loop %d of %s: %s holds initially' % (no, fnname, nm), P(I(0)), n)
        hyp = [le(I(0), t)]
        reach = None
        if not freshT: hyp.append(lt(t, T_))
        else: hyp.append(lt(t, T_)) if False else None
        nf = len(self.facts); nobs = len(self.obs)
        st = state(t)
        N = None
        self.ctx = oldctx + (t,)
        # two runs when the loop can be left: the first one (dry) finds the condition under which an iteration ends normally
        if hasexit:
            self.mode = 'dry'; ob0 = len(self.obs)
            self.S = State(dict(st.mem), entry.pc + tuple(hyp))
            try: c1, end1, _ = self.oneiter(cond, body, inc, True)
            finally: self.mode = oldmode; del self.facts[nf:]; del self.obs[ob0:]
            N = and_(*end1.pc[len(entry.pc) + len(hyp):]) if end1 is not None else FALSE
            j = fresh('j', 'Int')
            reach = lambda tau: abstract_forall([j], implies(and_(le(I(0), j), lt(j, tau)), subst(N, {t: j})))
            hyp.append(reach(t))
        for nm, P in cands: hyp.append(P(t))
        pc0 = entry.pc + tuple(h for h in hyp if h is not TRUE)
        self.S = State(dict(st.mem), pc0)
        c2, end, outs = self.oneiter(cond, body, inc, False)
        if end is not None:
            self.S = end
            for k in sorted(W, key=str):
                v = getleaf(end.mem[k[0]], k[1]) if k[1] else end.mem[k[0]]
                want = at(k, add(t, I(1)))
                if k in points: self.assume(eq(points[k][1](add(t, I(1))), selpath(v, points[k][0])))
                if k in sol:
                    if v is not want:
                        self.oblig('loop', 'loop %d of %s: summary of %s, step' % (no, fnname, leafname(k)), self.eqany(ctxsimp(v), ctxsimp(want)), n)
                    else: self.summaries += 1
                else:
                    # recurrence as definition
                    self.assume(self.eqany(want, v))
            # anything else changed?
            extra = self.diff(State({r: st.mem[r] for r in names}, ()), end, names) - W
            if extra: raise Unsupported('loop changes more than expected: %s' % sorted(extra)[:3])
            for nm, P in cands:
                no_ = len(self.obs)
                self.oblig('inv', 'loop %d of %s: %s is kept' % (no, fnname, nm), P(add(t, I(1))), n)
                if getattr(P, 'using', None) and len(self.obs) > no_:
                    # the facts a contract says are enough, with those of the iteration
                    few = set(P.using()) | (set(self.facts[nf:]) - self.aux) | set(self.S.pc)
                    hd = lambda x: {y.args[0] for y in subterms([x]) if y.op == 'app' and str(y.args[0]).startswith('L%d.' % lid)}
                    own = hd(P(add(t, I(1))))
                    self.obs[-1].hyps = [h for h in solve.units([h for h in self.obs[-1].hyps if h in few]) if hd(h) <= own]
        self.ctx = oldctx
        for k in W:
            if k in sol:
                e = getleaf(entry.mem[k[0]], k[1]) if k[1] else entry.mem[k[0]]
                z = sol[k](I(0))
                if z is not e:
                    self.S = entry
                    self.oblig('loop', 'loop %d of %s: summary of %s, start' % (no, fnname, leafname(k)), self.eqany(z, e), n)
        self.closefacts(nf, t)
        # an invariant holds after any number of iterations that was reached
        for nm, P in cands:
            r = fresh('r', 'Int')
            g = [le(I(0), r)] + ([reach(r)] if reach else [])
            if not freshT: g.append(le(r, T_))
            else: g.append(le(r, T_))
            self.S = entry
            self.assume(abstract_forall([r], implies(and_(*g), P(r))))
        # ---- after the loop
        res = []
        if c is not TRUE:
            pcx = []
            if freshT:
                j2 = fresh('j', 'Int')
                cc = N if N is not None else c
                pcx += [le(I(0), T_), abstract_forall([j2], implies(and_(le(I(0), j2), lt(j2, T_)), subst(cc, {t: j2}))), not_(subst(c, {t: T_}))]
            elif reach is not None: pcx.append(reach(T_))
            s = state(T_)
            for nm, P in cands: pcx.append(P(T_))
            res.append((State(s.mem, entry.pc + tuple(x for x in pcx if x is not TRUE)), None))
        for kind in ('brk', 'ret', 'thr'):
            for i, x in enumerate(outs[kind]):
                sx = x if kind == 'brk' else x[0]
                b = app('B%d.%s%d' % (lid, kind, i), oldctx, 'Int')
                m = {t: b}
                mem = {}
                for r in sx.mem:
                    if r in entry.mem or kind != 'brk': 
                        try: mem[r] = self.subtree(sx.mem[r], m)
                        except Unsupported: pass
                pcs = tuple(subst(p, m) for p in sx.pc)
                ns = State(mem, entry.pc + tuple(p for p in pcs[len(entry.pc):] if p is not TRUE))
                if kind == 'brk': res.append((ns, None))
                else:
                    v = x[1]
                    if kind == 'ret' and v is not None: v = self.subval(v, m)
                    self.outs[kind].append((ns, v))
        if not res: raise Exit()
        self.S, _ = self.merge(res)
    def houdini(self, entry, state, fixed, tries, t, T_, freshT, W, sol, at, cond, body, inc, hasexit, lk, lid, points):
        """the invariants among tries that are inductive (found quickly; they are proved again as obligations)"""
        from symex import State
        if hasexit: return []
        ask = lambda hy, g: g is TRUE or solve.prove(hy, g, timeout=1500, rounds=2, nl=False)[0] == 'proved'
        oldmode, oldctx, oldS, nf, no = self.mode, self.ctx, self.S, len(self.facts), len(self.obs)
        self.mode = 'dry'
        try:
            good = [x for x in tries if ask(self.facts + list(entry.pc), x[1](I(0)))]
            while good:
                self.ctx = oldctx + (t,)
                hyp = [le(I(0), t)] + ([lt(t, T_)] if not freshT else []) + [P(t) for _, P in list(fixed) + good]
                self.S = State(dict(state(t).mem), entry.pc + tuple(h for h in hyp if h is not TRUE))
                c, end, outs = self.oneiter(cond, body, inc, True)
                if end is None: return []
                self.S = end
                for k in W:
                    v = getleaf(end.mem[k[0]], k[1]) if k[1] else end.mem[k[0]]
                    if k not in sol: self.assume(self.eqany(at(k, add(t, I(1))), v))
                    if k in points: self.assume(eq(points[k][1](add(t, I(1))), selpath(v, points[k][0])))
                hy = self.hyps()
                keep = [x for x in good if ask(hy, x[1](add(t, I(1))))]
                del self.facts[nf:]; del self.obs[no:]
                if len(keep) == len(good): return good
                good = keep
            return good
        finally:
            self.mode, self.ctx, self.S = oldmode, oldctx, oldS
            del self.facts[nf:]; del self.obs[no:]
    loopids = None
    summaries = 0
    def subval(self, v, m):
        if isinstance(v, LV): return LV(v.root, tuple((p[0], subst(p[1], m)) if p[0] == 'i' else p for p in v.path))
        return self.subtree(v, m)
    def subtree(self, tr, m):
        if isinstance(tr, (Lambda, Fun, Str, Ptr)): return tr
        if isinstance(tr, It): return It(self.subval(tr.lv, m), subst(tr.idx, m))
        return tmap(lambda a: subst(a, m), tr)
    def substapp(self, tm, m): return subst(tm, m)
    def mentions(self, tm, lid, unres):
        return any(x.op == 'app' and str(x.args[0]).startswith('L%d.' % lid) for x in subterms([tm]))
    def eqany(self, a, b):
        if isinstance(a.sort, tuple):
            return self.eqarr(a, b)
        return eq(a, b)
    def eqarr(self, a, b):
        d = 0; s = a.sort
        while isinstance(s, tuple): d += 1; s = s[1]
        def q(*vs):
            x, y = a, b
            for v in vs: x, y = sel(x, v), sel(y, v)
            return eq(x, y)
        return forall(['Int'] * d, q)
    def nonneg(self, nn):
        g = le(I(0), nn)
        if g is TRUE: return True
        if g is FALSE: return False
        hs = set(self.S.pc)
        for h in self.S.pc:
            if h.op == 'and': hs.update(h.args)
        if g in hs or g in self.facts: return True
        # the length of an element of a well formed container
        d, a = 0, nn
        while a.op == 'sel': d += 1; a = a.args[0]
        if d and a.op == 'var':
            def q(*vs):
                x = a
                for v in vs: x = sel(x, v)
                return le(I(0), x)
            if forall(['Int'] * d, q) in self.facts: return True
        k = (g, self.S.pc)
        if k not in self.nncache:
            small = [h for h in self.hyps() if not any(x.op in ('forall', 'sum') for x in subterms([h]))]
            try: self.nncache[k] = solve.prove(small, g, timeout=500, rounds=1, nl=False)[0] == 'proved'
            except Exception: self.nncache[k] = False
        return self.nncache[k]
    nncache = None

    # ---------------------------------------------------------------- closed forms
    def oneelement(self, X, Y, t, un):
        """indexes (terms free of t and of unsolved sequences) of the only element of the array Y that differs from X"""
        if not isinstance(X.sort, tuple): return None
        js = []; x, y = X, Y
        while isinstance(x.sort, tuple):
            j = fresh('ix', 'Int'); js.append(j); x, y = sel(x, j), sel(y, j)
        got = []
        def go(p, path):
            if p is x: return True
            if p.op == 'ite': return go(p.args[1], path + [p.args[0]]) and go(p.args[2], path + [not_(p.args[0])])
            cs = []
            for j in js:
                c = None
                for q in path:
                    for q in (q.args if q.op == 'and' else (q,)):
                        if c is None and q.op == 'eq0' and occurs(j, q): c = self.solvefor(q.args[0], j)
                if c is None or occurs(t, c) or any(occurs(i, c) for i in js) or any(z in un for z in subterms([c])): return False
                cs.append(c)
            got.append(tuple(cs)); return True
        if not go(y, []) or not got or any(g != got[0] for g in got): return None
        return got[0]
    def elementform(self, k, e, at1, head, ctx):
        s = e.sort
        for _ in at1: s = s[1]
        def one(tau): return app(head, ctx + (I(0) if tau is None else tau,), s)
        def f(tau):
            if tau is I(0): return e
            js = [fresh('ix', 'Int') for _ in at1]
            r = ite(and_(*[eq(j, c) for j, c in zip(js, at1)]), one(tau), selpath(e, js))
            for j in reversed(js): r = abstract_lam(j, r)
            return r
        return f, one
    def closed(self, X, Y, e, t, un):
        """closed form tau -> term of the sequence with X(0) = e, X(t+1) = Y (a term over t, X and other unresolved sequences)"""
        def free(x): return not any(s in un for s in subterms([x]))
        if Y is X: return lambda tau: e
        if not isinstance(X.sort, tuple): return self.closed1(X, Y, e, t, free)
        # arrays: pointwise
        js = []
        x, y, ee = X, Y, e
        return self.closedarr(X, Y, e, t, free)
    def closed1(self, X, Y, e, t, free):
        if X.sort in ('Int', 'Real'):
            d = sub(Y, X)
            if free(d):
                if not occurs(t, d):
                    if X.sort == 'Int': return lambda tau: add(e, mul(d, tau))
                    return lambda tau: add(e, mul(d, toreal(tau)))
                return lambda tau: add(e, abstract_sum(t, d, tau))
            d = self.push_delta(X, Y)
            if d is not None and free(d):
                return lambda tau: add(e, abstract_sum(t, d, tau))
        if free(Y):
            return lambda tau: (e if tau is I(0) else subst(Y, {t: sub(tau, I(1))}) if self.pos(tau) else ite(le(tau, I(0)), e, subst(Y, {t: sub(tau, I(1))})))
        if X.sort == 'Bool':
            parts = None
            if Y.op == 'and' and X in Y.args:
                g = and_(*[a for a in Y.args if a is not X])
                if free(g):
                    def f(tau):
                        j = fresh('j', 'Int')
                        return and_(e, abstract_forall([j], implies(and_(le(I(0), j), lt(j, tau)), subst(g, {t: j}))))
                    return f
            if Y.op == 'or' and X in Y.args:
                g = or_(*[a for a in Y.args if a is not X])
                if free(g):
                    def f(tau):
                        j = fresh('j', 'Int')
                        return or_(e, not_(abstract_forall([j], implies(and_(le(I(0), j), lt(j, tau)), not_(subst(g, {t: j}))))))
                    return f
            # (X and a) or b ... : try Y[X:=true], Y[X:=false]
            y1, y0 = subst(Y, {X: TRUE}), subst(Y, {X: FALSE})
            if free(y1) and free(y0):
                if y0 is FALSE:
                    def f(tau):
                        j = fresh('j', 'Int')
                        return and_(e, abstract_forall([j], implies(and_(le(I(0), j), lt(j, tau)), subst(y1, {t: j}))))
                    return f
                if y1 is TRUE:
                    def f(tau):
                        j = fresh('j', 'Int')
                        return or_(e, not_(abstract_forall([j], implies(and_(le(I(0), j), lt(j, tau)), not_(subst(y0, {t: j}))))))
                    return f
        v, g = self.flagform(X, Y)
        if v is not None and free(v) and free(g) and not occurs(t, v):
            def f(tau):
                j = fresh('j', 'Int')
                return ite(abstract_forall([j], implies(and_(le(I(0), j), lt(j, tau)), not_(subst(g, {t: j})))), e, v)
            return f
        return None
    def pos(self, tau):
        # tau = something + 1 with something known not negative (a loop counter)
        p = poly_items(tau)
        c = p.pop((), 0)
        return c >= 1 and len(p) == 1 and all(q == 1 and len(m) == 1 and m[0].op == 'var' and m[0].args[0].startswith('t!') for m, q in p.items())
    def flagform(self, X, Y):
        """Y = ite tree whose leaves are X or one constant v: (v, condition under which v is chosen)"""
        vs = set()
        def go(y):
            if y is X: return FALSE
            if y.op == 'ite':
                a, b = go(y.args[1]), go(y.args[2])
                return or_(and_(y.args[0], a), and_(not_(y.args[0]), b))
            vs.add(y); return TRUE
        g = go(Y)
        if len(vs) == 1: return vs.pop(), g
        return None, None
    def push_delta(self, X, Y):
        """Y - X with the subtraction pushed into ite leaves"""
        if Y.op == 'ite':
            a = self.push_delta(X, Y.args[1]); b = self.push_delta(X, Y.args[2])
            return None if a is None or b is None else ite(Y.args[0], a, b)
        d = sub(Y, X)
        # X + ite(...) style
        return d
    def closedarr(self, X, Y, e, t, free):
        v = fresh('y', X.sort)
        Y2 = subst(Y, {X: v})
        if not free(Y2): return None
        return self.arrsol(Y2, v, e, t, [])
    def arrsol(self, P, v, e, t, conds):
        """array recurrence v' = P(t, v), v(0) = e, solved element by element: tau -> array"""
        js = []; x = v; ee = e; p = P
        while isinstance(x.sort, tuple):
            j = fresh('ix', 'Int'); js.append(j)
            x, ee, p = sel(x, j), sel(ee, j), self.rawsel(p, j)
        w = fresh('y', x.sort)
        p = self.under(p, v, js)
        p = subst(p, {x: w})
        if x.sort == 'Bool': p = self.boolite(p, w)
        if occurs(v, p): return None
        f = self.overwrite(p, w, ee, t)
        if f is None: f = self.elemsol(p, w, t, lambda: ee)
        if f is None: return None
        def g(tau):
            r = f(tau)
            for j in reversed(js): r = abstract_lam(j, r)
            return r
        return g
    def rawsel(self, a, j):
        """a[j]; truth values as trees of conditions, not as formulas"""
        if a.sort != ('A', 'Bool'): return sel(a, j)
        if a.op == 'sto':
            c = eq(a.args[1], j)
            return a.args[2] if c is TRUE else self.rawsel(a.args[0], j) if c is FALSE else mk('ite', (c, a.args[2], self.rawsel(a.args[0], j)), 'Bool')
        if a.op == 'ite': return mk('ite', (a.args[0], self.rawsel(a.args[1], j), self.rawsel(a.args[2], j)), 'Bool')
        return sel(a, j)
    def boolite(self, p, x, depth=12):
        """a truth value as a tree of conditions with x, true and false as leaves"""
        if p is x or not occurs(x, p) or not depth: return p
        cs = [c for c in subterms([p]) if c.op in ('le0', 'lt0', 'eq0') and c.loose == 0 and not occurs(x, c)]
        if not cs: return p
        c = min(cs, key=lambda c: c.id)
        return mk('ite', (c, self.boolite(subst(p, {c: TRUE, not_(c): FALSE}), x, depth - 1), self.boolite(subst(p, {c: FALSE, not_(c): TRUE}), x, depth - 1)), 'Bool')
    def elemsol(self, P, v, t, e):
        """scalar recurrence v' = P(t, v) with parameters"""
        e = e()
        if v.sort in ('Int', 'Real'):
            d = self.push_delta(v, P)
            if d is not None and not occurs(v, d):
                return lambda tau: add(e, abstract_sum(t, d, tau))
        c, g = self.flagform(v, P)
        if c is not None and not occurs(v, c) and not occurs(v, g) and not occurs(t, c):
            def f(tau):
                q = fresh('j', 'Int')
                return ite(abstract_forall([q], implies(and_(le(I(0), q), lt(q, tau)), not_(subst(g, {t: q})))), e, c)
            return f
        if not occurs(v, P):
            return lambda tau: ite(le(tau, I(0)), e, subst(P, {t: sub(tau, I(1))}))
        return None
    def under(self, P, X, js):
        """inside the branch of a test j == idx, X[idx] is X[j]"""
        if not occurs(X, P): return P
        if P.op == 'ite':
            c = P.args[0]; a, b = P.args[1], P.args[2]
            for br in (0, 1):
                m = {}
                cc = c if br == 0 else not_(c)
                y = (a, b)[br]
                x = X
                for j in js:
                    for q in (cc.args if cc.op == 'and' else (cc,)):
                        if q.op == 'eq0' and occurs(j, q):
                            idx = self.solvefor(q.args[0], j)
                            if idx is not None: y = subst(y, {sel(x, idx): sel(x, j)})
                    x = sel(x, j)
                if br == 0: a = y
                else: b = y
            a, b = self.under(a, X, js), self.under(b, X, js)
            return ite(c, a, b) if P.sort != 'Bool' else mk('ite', (c, a, b), 'Bool')
        return P
    def solvefor(self, p, j):
        """p = 0 solved for j"""
        co = None; rest = I(0)
        if p.sort != 'Int': return None
        for m, q in poly_items(p).items():
            if m == (j,): co = q
            elif j in m: return None
            else:
                x = num(q, 'Int')
                for a in m: x = mul(x, a)
                rest = add(rest, x)
        if co is None or abs(co) != 1 or occurs(j, rest): return None
        return scale(rest, -1 / co)
    def overwrite(self, P, v, e, t):
        """P = ite tree over conditions; where v is changed, the conditions determine t"""
        conds = []      # (path condition, value) of changed leaves
        def go(p, path):
            if p is v: return
            if p.op == 'ite':
                go(p.args[1], path + [p.args[0]]); go(p.args[2], path + [not_(p.args[0])]); return
            conds.append(path)
        go(P, [])
        if not conds or any(not path for path in conds): return None
        common = None
        for path in conds:
            flat = []
            for q in path: flat += list(q.args) if q.op == 'and' else [q]
            found = self.solve_t(flat, t)
            if common is None: common = found
            else:
                common = [(s, iv if any(s is s2 and iv == iv2 for s2, iv2 in found) else None) for s, iv in common if any(s is s2 for s2, _ in found)]
            if not common: return None
        # a solution that depends on the position rather than a constant
        common.sort(key=lambda x: 0 if any(y.op == 'var' and y.args[0].startswith('ix') for y in subterms([x[0]])) else 1)
        ts, between = common[0]
        if between is not None:
            # w t + a <= j < w t + a + w for some t < tau: 0 <= j - a < w tau
            w, a, lo, hi = between
            at = subst(subst(P, {lo: TRUE, hi: TRUE, not_(lo): FALSE, not_(hi): FALSE}), {v: e, t: ts})
            return lambda tau: ite(and_(le(I(0), a), lt(a, mul(w, tau))), at, e)
        at = subst(P, {v: e, t: ts})
        return lambda tau: ite(and_(le(I(0), ts), lt(ts, tau)), at, e)
    def solve_t(self, conds, t):
        """the values of t that the conditions allow: (value, interval) in order of preference"""
        out = []
        for q in conds:
            if q.op == 'eq0':
                s = self.solvefor(q.args[0], t)
                if s is None:
                    # w*t + rest = 0 with w a product of loop constants: t = -rest / w
                    s = self.divsolve(q.args[0], t)
                if s is not None: out.append((s, None))
        # interval  w t + a <= j < w t + a + w
        los = []; his = []
        for q in conds:
            if q.op == 'le0':
                ct, rest = self.lin(q.args[0], t)
                if ct is None: continue
                (los if self.positive(ct) else his).append((ct, rest, q)) if ct is not I(0) else None
        for ct, rest, q in los:       # ct*t + rest <= 0  ->  t <= -rest/ct
            for ct2, rest2, q2 in his: # -ct*t + rest2 <= 0 ; want rest2 = -rest - ct + 1
                if add(ct, ct2) is I(0) and add(rest2, rest) is add(I(1), neg(ct)): out.append((tdiv(neg(rest), ct), (ct, neg(rest), q, q2)))
        return out
    def positive(self, c):
        return next(iter(poly_items(c).values())) > 0
    def lin(self, p, t):
        if p.sort != 'Int': return None, None
        ct = I(0); rest = I(0)
        for m, q in poly_items(p).items():
            x = num(q, 'Int')
            if t in m:
                mm = list(m); mm.remove(t)
                if t in mm: return None, None
                for a in mm: x = mul(x, a)
                if occurs(t, x): return None, None
                ct = add(ct, x)
            else:
                for a in m: x = mul(x, a)
                if occurs(t, x): return None, None
                rest = add(rest, x)
        return ct, rest
    def divsolve(self, p, t):
        ct, rest = self.lin(p, t)
        if ct is None or ct is I(0): return None
        if not self.positive(ct): ct, rest = neg(ct), neg(rest)
        return tdiv(neg(rest), ct)
