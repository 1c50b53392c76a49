"""Decides validity of hyps |- goal: quantifier instantiation, sum and array axioms and nonlinear lemmas are
generated here as ground clauses; z3 (and cvc5) decide the ground problem."""
import time, itertools, os
from fractions import Fraction
from term import *
import z3

STATS = {'queries': 0, 'time': 0.0, 'z3': 0, 'z3-nl': 0, 'cvc5': 0}
MAXT = 2500

def prenex(t):
    """forall x. A or forall y. B  as  forall x y. A or B"""
    sorts, body = t.args
    while True:
        if body.op == 'forall': sorts, body = sorts + body.args[0], body.args[1]; continue
        if body.op == 'or':
            f = next((x for x in body.args if x.op == 'forall'), None)
            if f is not None:
                k = len(f.args[0])
                body = or_(*[shift(x, k) for x in body.args if x is not f], f.args[1]); sorts = sorts + f.args[0]
                continue
        break
    if len(sorts) == len(t.args[0]) or len(sorts) > 4: return t
    return mk('forall', (sorts, body), 'Bool') if body.loose else body
def units(hyps):
    """hypotheses without the alternatives that other hypotheses exclude"""
    have = set()
    for h in hyps: have.update(h.args if h.op == 'and' else (h,))
    out = []
    for h in hyps:
        if h.op == 'or':
            if any(x in have for x in h.args): continue
            l = [x for x in h.args if not_(x) not in have and not (x.op == 'and' and any(not_(y) in have for y in x.args)) and not (x.op == 'not' and x.args[0].op == 'and' and all(y in have for y in x.args[0].args))]
            if len(l) < len(h.args): h = or_(*l)
        out.append(h)
    return out
class Prover:
    def __init__(self, hyps, goal, rounds=3, use_sumext=True, hints=(), flat=True):
        self.flat = flat
        self.clauses = []          # ground T of sort Bool
        self.seen = set()
        self.rounds = rounds
        self.hints = list(hints)
        self.foralls = {}          # forall term -> set of used instances
        self.arrs = {}             # closed lam/sto term in UF position -> var
        self.done_sum = set(); self.done_ext = set(); self.done_eq = set(); self.done_misc = set()
        self.use_sumext = use_sumext
        self.names = {}
        for h in units(list(hyps)): self.assume(h)
        self.assume(not_(goal))
        self.saturate()

    def assume(self, t):
        t = self.norm(t)
        if t.op == 'forall' and self.flat: t = prenex(t)
        if t is TRUE or t in self.seen: return
        self.seen.add(t)
        if t.op == 'and':
            for x in t.args: self.assume(x)
            return
        self.clauses.append(t)

    # ---- array terms in argument positions get names
    def norm(self, t):
        return t

    def arrname(self, t):
        """name for a closed array valued lam/sto/ite term"""
        if t.op in ('var', 'app', 'sel'): return t
        v = self.arrs.get(t)
        if v is None:
            v = fresh('arr', t.sort)
            self.arrs[t] = v
        return v

    def collect(self):
        g = set()
        for t in subterms(self.clauses):
            if t.loose == 0: g.add(t)
        return g

    def saturate(self):
        t0 = time.time()
        for rnd in range(self.rounds):
            n0 = len(self.clauses)
            # what is left out makes a proof fail, never succeed
            if n0 > 12000 or time.time() - t0 > 15: break
            g = self.collect()
            if len(g) > 40000: break
            self.misc(g, rnd)
            self.inst(g, rnd)
            if rnd == 0: 
                for h in self.hints: self.assume(h)
            if len(self.clauses) == n0: break
        self.misc(self.collect(), self.rounds)

    def misc(self, g, rnd):
        sums = [t for t in g if t.op == 'sum']
        sums.sort(key=lambda t: t.id)
        for s in sums:
            if s in self.done_sum: continue
            self.done_sum.add(s)
            b, n = s.args
            z = num(0, s.sort)
            self.assume(or_(lt(I(0), n), eq(s, z)))
            # unfold the last element
            prev = mk('sum', (b, sub(n, I(1))), s.sort)
            if n.op == 'num':
                if 0 < n.args[0] <= 8:
                    self.assume(eq(s, add(abstract_sum2(b, sub(n, I(1)), s.sort), open_(b, sub(n, I(1))))))
                    self.done_ext.add((s, 'n'))
                continue
            if rnd == 0:
                self.done_sum.add(prev)
                self.assume(or_(le(n, I(0)), eq(s, add(prev, open_(b, sub(n, I(1)))))))
                self.assume(or_(not_(eq(n, I(1))), eq(prev, z)))
            # sign
            sk = fresh('sg', 'Int')
            el = open_(b, sk)
            self.assume(or_(le(z, s), and_(le(I(0), sk), lt(sk, n), lt(el, z))))
        if self.use_sumext and rnd <= 1:
            for s1, s2 in itertools.combinations(sums, 2):
                if s1.sort != s2.sort or (s1, s2) in self.done_ext: continue
                self.done_ext.add((s1, s2))
                if s1.args[0] is s2.args[0]:
                    # same terms: congruence on the bound
                    self.assume(or_(not_(eq(s1.args[1], s2.args[1])), eq(s1, s2)))
                    # one step apart
                    for a, b in ((s1, s2), (s2, s1)):
                        self.assume(or_(not_(eq(a.args[1], add(b.args[1], I(1)))), le(a.args[1], I(0)),
                                        eq(a, add(b, open_(b.args[0], b.args[1])))))
                    continue
                sk = fresh('sx', 'Int')
                e1, e2 = open_(s1.args[0], sk), open_(s2.args[0], sk)
                self.assume(or_(not_(eq(s1.args[1], s2.args[1])), eq(s1, s2),
                                and_(le(I(0), sk), lt(sk, s1.args[1]), ne(e1, e2))))
        for t in list(g):
            if t in self.done_misc: continue
            self.done_misc.add(t)
            if t.op == 'inv':
                b = t.args[0]
                self.assume(or_(eq(b, R(0)), eq(mul(b, t), R(1))))
                self.assume(or_(le(b, R(0)), lt(R(0), t)))
            elif t.op in ('tdiv', 'tmod'):
                a, b = t.args
                q = tdiv(a, b); r = tmod(a, b)
                if (a, b, 'dm') in self.done_misc: continue
                self.done_misc.add((a, b, 'dm'))
                self.assume(or_(eq(b, I(0)), eq(a, add(mul(b, q), r))))
                self.assume(or_(not_(and_(le(I(0), a), lt(I(0), b))), and_(le(I(0), r), lt(r, b), le(I(0), q), le(q, a))))
                self.assume(or_(not_(and_(lt(a, I(0)), lt(I(0), b))), and_(le(r, I(0)), lt(neg(b), r), le(q, I(0)))))
                # polynomial division
                pb = poly_items(b)
                if len(pb) == 1:
                    (mb, cb), = pb.items()
                    qr = polydiv(a, b)
                    if qr:
                        q2, r2 = qr
                        self.assume(or_(le(b, I(0)), lt(r2, I(0)), le(b, r2), lt(a, I(0)), and_(eq(q, q2), eq(r, r2))))
                    # b u <= a < b u + b
                    us = set()
                    for x in g:
                        if x.op == 'poly' and x.sort == 'Int':
                            for m, c in x.args:
                                mm = list(m)
                                if len(mm) == len(mb) + 1 and all(y in mm and not mm.remove(y) for y in mb) and mm[0].op in ('var', 'app', 'sel'): us.add(mm[0])
                    for u in sorted(us, key=lambda x: x.id)[:5]:
                        self.assume(or_(le(b, I(0)), lt(a, mul(b, u)), le(mul(b, add(u, I(1))), a), lt(u, I(0)), eq(q, u)))
            elif t.op == 'floor':
                self.assume(and_(le(toreal(t), t.args[0]), lt(t.args[0], add(toreal(t), R(1)))))
            elif t.op == 'app' and t.args[0] == 'exp':
                self.assume(lt(R(0), t))
                x = t.args[1]
                self.assume(implies(eq(x, R(0)), eq(t, R(1))))
                self.assume(implies(le(x, R(0)), le(t, R(1)))); self.assume(implies(le(R(0), x), le(R(1), t)))
            elif t.op == 'app' and t.args[0] == 'sqrt':
                x = t.args[1]
                self.assume(implies(le(R(0), x), and_(le(R(0), t), eq(mul(t, t), x))))
            elif t.op == 'app' and t.args[0] == 'tanh':
                self.assume(and_(lt(t, R(1)), lt(R(-1), t)))
        # array equalities: diff witnesses
        for t in list(g):
            if t.op == 'eq' and isinstance(t.args[0].sort, tuple) and t not in self.done_eq:
                self.done_eq.add(t)
                self.arr_ext(t.args[0], t.args[1])
        # congruence over array arguments
        apps = {}
        for t in g:
            if t.op == 'app' and any(isinstance(a, T) and isinstance(a.sort, tuple) for a in t.args[1:]):
                apps.setdefault(t.args[0], []).append(t)
        for f, l in apps.items():
            l.sort(key=lambda t: t.id)
            if len(l) > 25: continue
            for a, b in itertools.combinations(l, 2):
                for x, y in zip(a.args[1:], b.args[1:]):
                    if isinstance(x.sort, tuple) and x is not y: self.arr_ext(x, y)
        self.exps(g)

    def exps(self, g):
        ex = sorted([t for t in g if t.op == 'app' and t.args[0] == 'exp'], key=lambda t: t.id)
        if len(ex) > 14: return
        for a, b in itertools.combinations(ex, 2):
            if (a, b) in self.done_ext: continue
            self.done_ext.add((a, b))
            x, y = a.args[1], b.args[1]
            self.assume(implies(le(x, y), le(a, b))); self.assume(implies(le(y, x), le(b, a)))

    def arr_ext(self, x, y):
        if x.id > y.id: x, y = y, x
        k = (x, y, 'ext')
        if k in self.done_ext: return
        self.done_ext.add(k)
        sk = fresh('df', 'Int')
        d = ne_deep(sel(x, sk), sel(y, sk))
        self.assume(or_(mk('eq', (x, y), 'Bool'), d))

    # ---- instantiation
    def inst(self, g, rnd):
        idx = {}
        sel_ix = set()
        for t in g:
            if t.op == 'sel':
                idx.setdefault(('sel', t.sort), []).append(t)
                sel_ix.add(t.args[1])
            elif t.op == 'app':
                idx.setdefault(('app', t.args[0]), []).append(t)
                for a in t.args[1:]:
                    if isinstance(a, T) and a.sort == 'Int': sel_ix.add(a)
            elif t.op in ('tdiv', 'tmod'):
                idx.setdefault((t.op, t.sort), []).append(t)
            elif t.op == 'sum': idx.setdefault(('sum', t.args[0]), []).append(t)
            elif t.op == 'var' and t.sort == 'Int' and t.args[0].startswith(('sk', 'sx', 'sg', 'df')): sel_ix.add(t)
        for t in sorted((t for t in g if t.op == 'forall'), key=lambda t: t.id):
            used = self.foralls.setdefault(t, set())
            sorts, body = t.args
            n = len(sorts)
            if not used:
                used.add('sk')
                # (no witness against what is known to hold)
                sks = None if t in self.seen else [fresh('sk', s) for s in sorts]
                if sks: self.assume(or_(t, not_(open_(body, *sks))))
            cands = set()
            pats = self.patterns(body, n)
            full = [p for p in pats if len(bvs_of(p, n)) == n]
            for p in full:
                for gt in idx.get(pkey(p), ()):
                    for m in match(p, gt, n): cands.add(m)
            if n == 1 and sorts[0] == 'Int' and (not full or rnd == 0) and len(sel_ix) <= 60:
                for i in sel_ix: cands.add((i,))
            if not full and n > 1:
                per = []
                for k in range(n):
                    s = set()
                    for p in pats:
                        if bvs_of(p, n) == {k}:
                            for gt in idx.get(pkey(p), ()):
                                for m in match(p, gt, n): s.add(m[n - 1 - k])
                    if not s and sorts[n - 1 - k] == 'Int': s = set(list(sel_ix)[:12])
                    per.append(s)
                per = per[::-1]
                cut = lambda k: [sorted(s, key=lambda t: t.id)[:k] for s in per]
                tot = 1
                for s in per: tot *= len(s)
                if tot > 400: per = cut(int(400 ** (1 / n)))
                if True:
                    for c in itertools.product(*[sorted(s, key=lambda t: t.id) for s in per]): cands.add(tuple(c))
            for c in sorted(cands, key=(lambda c: (-sum(x.op == 'var' and x.args[0].startswith('sk') for x in c),) + tuple(x.id for x in c)) if len(cands) > 100 else (lambda c: tuple(x.id for x in c))):
                if c in used or any(x.sort != s for x, s in zip(c, sorts)): continue
                if len(used) > 120: break
                used.add(c)
                self.assume(or_(not_(t), open_(body, *c)))
        # named arrays need nothing: sel over lam/sto/ite is expanded by construction

    def patterns(self, body, n):
        out = []
        def go(t, d):
            if t.loose <= d: return
            if t.op in ('sel', 'app', 'tdiv', 'tmod') and d == 0: out.append(t)
            if t.op == 'sum' and d == 0 and t.args[0].loose <= 1: out.append(t)
            if t.op == 'lam' or t.op == 'sum':
                return
            if t.op == 'forall': return
            for c in children(t): go(c, d)
        go(body, 0)
        return list(dict.fromkeys(out))

    # ---- conversion to z3
    def toz3(self, nl=False):
        cv = Conv(self, nl)
        fs = [cv.b(c) for c in self.clauses]
        fs += cv.lemmas()
        # array equality atoms: instantiate on the indexes in use
        return fs, cv

def polydiv(a, b):
    """a = b q + r for a monomial b, as far as the terms of a are multiples of it"""
    pb = poly_items(b)
    if len(pb) != 1: return None
    (mb, cb), = pb.items(); qd = {}; rd = {}
    for m, c in poly_items(a).items():
        mm = list(m); ok = (c / cb).denominator == 1
        for x in mb:
            if x in mm: mm.remove(x)
            else: ok = False
        if ok: qd[tuple(mm)] = qd.get(tuple(mm), 0) + c / cb
        else: rd[m] = c
    return (from_poly(qd, 'Int'), from_poly(rd, 'Int')) if qd else None
def abstract_sum2(b, n, sort):
    v = fresh('s', 'Int')
    return abstract_sum(v, open_(b, v), n)

def ne_deep(a, b):
    if isinstance(a.sort, tuple):
        sk = fresh('df', 'Int')
        return ne_deep(sel(a, sk), sel(b, sk))
    return ne(a, b)

def pkey(p):
    if p.op == 'sel': return ('sel', p.sort)
    if p.op == 'app': return ('app', p.args[0])
    if p.op == 'sum': return ('sum', p.args[0])
    return (p.op, p.sort)
def bvs_of(t, n):
    out = set()
    def go(t, d):
        if t.loose <= d: return
        if t.op == 'bv':
            if t.args[0] >= d: out.add(t.args[0] - d)
            return
        if t.op == 'lam': return go(t.args[0], d + 1)
        if t.op == 'sum': go(t.args[0], d + 1); return go(t.args[1], d)
        if t.op == 'forall': return go(t.args[1], d + len(t.args[0]))
        for c in children(t): go(c, d)
    go(t, 0)
    return out

def match(p, g, n):
    """all substitutions (tuples, first bound variable first) with p[s] == g; only complete ones"""
    res = []
    def go(p, g, s):
        if p.loose == 0: return [s] if p is g else []
        if p.op == 'bv':
            k = p.args[0]
            if k in s: return [s] if s[k] is g else []
            if p.sort != g.sort: return []
            s = dict(s); s[k] = g; return [s]
        if p.op == 'poly':
            if p.sort != g.sort: return []
            un = None; rest = num(0, p.sort)
            for m, c in p.args:
                ls = [a for a in m if a.loose]
                if not ls:
                    t = num(c, p.sort)
                    for a in m: t = mul(t, a)
                    rest = add(rest, t)
                elif len(m) == 1 and m[0].op == 'bv' and abs(c) == 1 and m[0].args[0] not in s and un is None: un = (m[0], c)
                else:
                    # already bound variables are substituted below
                    un2 = None
                    t = num(c, p.sort)
                    for a in m:
                        if a.loose:
                            if a.op == 'bv' and a.args[0] in s: a = s[a.args[0]]
                            else: return []
                        t = mul(t, a)
                    rest = add(rest, t)
            if un is None: return [s] if sub(g, rest) is num(0, p.sort) else []
            s = dict(s); s[un[0].args[0]] = scale(sub(g, rest), un[1]); return [s]
        if p.op != g.op or len(p.args) != len(g.args): return []
        if p.op == 'sum': return go(p.args[1], g.args[1], s) if p.args[0] is g.args[0] else []
        if p.op in ('lam', 'forall'): return []
        ss = [s]
        # match non polynomial arguments first
        order = sorted(range(len(p.args)), key=lambda i: isinstance(p.args[i], T) and p.args[i].op == 'poly')
        for i in order:
            a, b = p.args[i], g.args[i]
            if not isinstance(a, T):
                if a != b: return []
                continue
            ss = [s2 for s1 in ss for s2 in go(a, b, s1)]
            if not ss: return []
        return ss
    for s in go(p, g, {}):
        if all(k in s for k in range(n)): res.append(tuple(s[n - 1 - j] for j in range(n)))
    return res

class Conv:
    def __init__(self, pr, nl):
        self.pr = pr; self.nl = nl; self.memo = {}; self.monos = {}; self.fun = {}; self.extra = []
        self.sorts = {'Int': z3.IntSort(), 'Real': z3.RealSort(), 'Bool': z3.BoolSort()}
        self.foralls = {}
        self.done_lam = {}
    def zs(self, s):
        if s not in self.sorts:
            self.sorts[s] = z3.DeclareSort('S_' + str(len(self.sorts)))
        return self.sorts[s]
    def f(self, name, dom, rng):
        k = (name, tuple(dom), rng)
        if k not in self.fun:
            self.fun[k] = z3.Function('%s@%d' % (name, len(self.fun)), *([self.zs(s) for s in dom] + [self.zs(rng)]))
        return self.fun[k]
    def b(self, t): return self.t(t)
    def t(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._t(t)
            self.memo[t] = r
        return r
    def _t(self, t):
        o = t.op; a = t.args
        assert t.loose == 0, t
        if o == 'num':
            return z3.IntVal(int(a[0])) if t.sort == 'Int' else z3.RealVal(str(a[0]))
        if o == 'true': return z3.BoolVal(True)
        if o == 'false': return z3.BoolVal(False)
        if o == 'var' or o == 'lit': return z3.Const('%s|%s' % (a[0], len(str(t.sort))), self.zs(t.sort))
        if o == 'poly':
            parts = []
            for m, c in a:
                if not m: parts.append(z3.IntVal(int(c)) if t.sort == 'Int' else z3.RealVal(str(c))); continue
                x = self.mono(m, t.sort)
                if c == 1: parts.append(x)
                else: parts.append((z3.IntVal(int(c)) if t.sort == 'Int' else z3.RealVal(str(c))) * x)
            return z3.Sum(parts) if len(parts) > 1 else parts[0]
        if o == 'le0': return self.t(a[0]) <= 0
        if o == 'lt0': return self.t(a[0]) < 0
        if o == 'eq0': return self.t(a[0]) == 0
        if o == 'eq': return self.t(a[0]) == self.t(a[1])
        if o == 'not': return z3.Not(self.t(a[0]))
        if o == 'and': return z3.And([self.t(x) for x in a])
        if o == 'or': return z3.Or([self.t(x) for x in a])
        if o == 'ite': return z3.If(self.t(a[0]), self.t(a[1]), self.t(a[2]))
        if o == 'sel':
            return self.f('sel', (a[0].sort, 'Int'), t.sort)(self.t(a[0]), self.t(a[1]))
        if o == 'app':
            args = a[1:]
            if not args: return z3.Const('%s()' % a[0], self.zs(t.sort))
            return self.f('u_' + str(a[0]), tuple(x.sort for x in args), t.sort)(*[self.t(x) for x in args])
        if o in ('inv', 'toreal', 'floor'):
            if o == 'toreal': return z3.ToReal(self.t(a[0]))
            return self.f(o, (a[0].sort,), t.sort)(self.t(a[0]))
        if o in ('tdiv', 'tmod'):
            return self.f(o, ('Int', 'Int'), 'Int')(self.t(a[0]), self.t(a[1]))
        if o == 'sum':
            key, params = self.template(a[0])
            return self.f('sum%d' % key, tuple(p.sort for p in params) + ('Int',), t.sort)(*([self.t(p) for p in params] + [self.t(a[1])]))
        if o in ('lam', 'sto'):
            v = z3.Const('lam!%d' % t.id, self.zs(t.sort))
            return v
        if o == 'forall':
            return z3.Bool('fa!%d' % t.id)
        raise Exception('conv ' + o)
    TEMPL = {}
    def template(self, body):
        """abstract maximal closed subterms of a binder body"""
        params = []
        memo = {}
        def go(t, d):
            if t.loose == 0:
                if t.op in ('num', 'true', 'false', 'lit'): return t
                if t not in params: params.append(t)
                return var('$%d' % params.index(t), t.sort)
            k = t
            if k in memo: return memo[k]
            if t.op == 'bv': r = t
            else: r = rebuild_nosimp(t, lambda x: go(x, d))
            memo[k] = r
            return r
        b = go(body, 1)
        k = Conv.TEMPL.setdefault(b, len(Conv.TEMPL))
        return k, params
    def mono(self, m, sort):
        if len(m) == 1: return self.t(m[0])
        if self.nl:
            r = self.t(m[0])
            for x in m[1:]: r = r * self.t(x)
            return r
        if m not in self.monos:
            self.monos[m] = z3.Const('m!' + '_'.join(str(x.id) for x in m), self.zs(sort))
            for x in m: self.t(x)
        return self.monos[m]
    def lemmas(self):
        out = []
        # named arrays: congruence with sel is not needed (sel over lam is expanded), but equality with others is:
        # an equality atom between arrays gives pointwise equality at every index in use
        eqs = [t for t in self.memo if t.op == 'eq' and isinstance(t.args[0].sort, tuple)]
        if eqs:
            ix = {}
            for t in list(self.memo):
                if t.op == 'sel': ix.setdefault(t.args[0].sort, set()).add(t.args[1])
            for e in eqs:
                for i in list(ix.get(e.args[0].sort, ()))[:60]:
                    x, y = sel(e.args[0], i), sel(e.args[1], i)
                    out.append(z3.Implies(self.t(e), self.t(eq(x, y))))
        if self.nl: return out
        # a linear constraint times a factor, when all the products are in use already
        have = set(self.monos); n = 0
        for a in [t for t in self.memo if t.op in ('le0', 'eq0') and t.loose == 0 and t.args[0].op == 'poly']:
            p = a.args[0]; ms = [m for m, c in p.args if m]
            if not 2 <= len(ms) <= 5 or n > 400: continue
            fs = None
            for m in ms:
                s = set()
                for h in have:
                    if len(h) <= len(m) or h[0].sort != p.sort: continue
                    r = list(h)
                    try:
                        for x in m: r.remove(x)
                    except ValueError: continue
                    s.add(tuple(r))
                fs = s if fs is None else fs & s
                if not fs: break
            for f in sorted(fs or (), key=lambda m: [x.id for x in m])[:4]:
                F = self.mono(f, p.sort); A = self.t(a); n += 1
                q = z3.Sum([(z3.IntVal(int(c)) if p.sort == 'Int' else z3.RealVal(str(c))) * (self.mono(mono_mul(m, f), p.sort) if m else F) for m, c in p.args])
                if a.op == 'eq0': out.append(z3.Implies(A, q == 0))
                else:
                    out.append(z3.Implies(z3.And(F >= 0, A), q <= 0))
                    out.append(z3.Implies(z3.And(F >= 0, z3.Not(A)), q >= F if p.sort == 'Int' else q >= 0))
        for _ in range(2):
            ms = [(m, m[0].sort) for m in self.monos]
            if len(ms) > 160: break
            byf = {}
            for m, s in ms:
                for i in range(len(m)):
                    f = m[:i] + m[i + 1:]
                    byf.setdefault((f, s), {})[m[i]] = m
                    if len(f) > 1: byf.setdefault(((m[i],), s), {})[f] = m
            for (f, s), us in byf.items():
                F = self.mono(f, s)
                items = list(us.items())
                for u, m in items:
                    M = self.mono(m, s)
                    U = self.mono(u, s) if isinstance(u, tuple) else self.t(u)
                    out.append(z3.Implies(z3.And(F >= 0, U >= 0), M >= 0))
                    out.append(z3.Implies(z3.And(F > 0, U > 0), z3.And(M > 0, M >= F) if s == 'Int' else M > 0))
                    out.append(z3.Implies(z3.And(F >= 0, U <= 0), M <= 0))
                    out.append(z3.Implies(z3.And(F <= 0, U >= 0), M <= 0))
                    out.append(z3.Implies(z3.Or(F == 0, U == 0), M == 0))
                    out.append(z3.Implies(U == 1, M == F))
                    if s == 'Real':
                        out.append(z3.Implies(z3.And(F <= 0, U <= 0), M >= 0))
                        out.append(z3.Implies(z3.And(F >= 0, U <= 1), M <= F))
                        out.append(z3.Implies(z3.And(F >= 0, U >= 1), M >= F))
                    else:
                        out.append(z3.Implies(U == 2, M == 2 * F))
                if len(items) > 12: continue
                for (u, m), (v, m2) in itertools.combinations(items, 2):
                    U = self.mono(u, s) if isinstance(u, tuple) else self.t(u)
                    V = self.mono(v, s) if isinstance(v, tuple) else self.t(v)
                    M, M2 = self.mono(m, s), self.mono(m2, s)
                    out.append(z3.Implies(U == V, M == M2))
                    if s == 'Int':
                        out.append(z3.Implies(z3.And(F >= 0, U < V), M + F <= M2))
                        out.append(z3.Implies(z3.And(F >= 0, V < U), M2 + F <= M))
                    else:
                        out.append(z3.Implies(z3.And(F >= 0, U <= V), M <= M2))
                        out.append(z3.Implies(z3.And(F >= 0, V <= U), M2 <= M))
                        out.append(z3.Implies(z3.And(F > 0, U < V), M < M2))
                        out.append(z3.Implies(z3.And(F > 0, V < U), M2 < M))
            # congruence of monomials with equal factors
            if len(self.monos) == len(ms): break
        return out

def rebuild_nosimp(t, f):
    o = t.op
    if o == 'poly':
        return mk('tpoly', tuple((tuple(f(a) for a in m), c) for m, c in t.args), t.sort) if False else \
            mk('tp', tuple(x for m, c in t.args for x in ((mk('tm', tuple(f(a) for a in m) + (c,), t.sort)),)), t.sort)
    if o == 'forall': return mk('forall_', (t.args[0], f(t.args[1])), 'Bool')
    return mk(o + '_', tuple(f(a) if isinstance(a, T) else a for a in t.args), t.sort)

TRACE = bool(os.environ.get('CPPVC_SPLIT'))
class TooMany(Exception): pass
def split_equal(hyps, goal, limit=1500, seconds=15):
    """equation between values by cases: every case of the conditions in it makes both sides the same polynomial or is contradictory"""
    t0 = time.time(); path = []
    while True:
        if goal.op == 'forall':
            goal = open_(goal.args[1], *[fresh('sk', x) for x in goal.args[0]])
        elif goal.op == 'or':
            eqs = [x for x in goal.args if x.op in ('eq0', 'forall', 'and')]
            e = [x for x in eqs if any(y.op == 'ite' for y in subterms([x]))] or eqs
            if not eqs and all(x.op in ('le0', 'lt0', 'not') for x in goal.args):
                path += [not_(x) for x in goal.args]; goal = mk('eq0', (I(1),), 'Bool'); break
            if len(e) != 1: return False
            path += [not_(x) for x in goal.args if x is not e[0]]; goal = e[0]
        elif goal.op == 'and': return all(split_equal(hyps + path, g, limit, seconds) for g in goal.args)
        else: break
    if goal is TRUE: return True
    if goal.op in ('le0', 'lt0'): path = path + [not_(goal)]; goal = mk('eq0', (I(1),), 'Bool')
    if goal.op != 'eq0': return False
    p = goal.args[0]
    # conditions inside of quotients first: they decide what the other terms are
    inner = sorted({y.args[0] for x in subterms([goal] + path) if x.op in ('tdiv', 'tmod') and x.loose == 0 for y in subterms([x]) if y.op == 'ite'}, key=lambda c: c.id)
    if inner and inner[0].op in ('le0', 'lt0', 'eq0'):
        c = inner[0]
        for q, m in ((c, {c: TRUE, not_(c): FALSE}), (not_(c), {c: FALSE, not_(c): TRUE})):
            g = or_(*[not_(x) for x in path], goal) if goal.args[0] is I(1) else goal
            if not split_equal([subst(h, m) for h in hyps + path if not any(x.op in ('forall', 'sum') for x in subterms([h]))] + [q], subst(g, m), limit, seconds): return False
        return True
    def ok(h):
        sub = list(subterms([h]))
        return not any(x.op in ('forall', 'sum') for x in sub) and (len(sub) < 40 or not any(x.op == 'ite' for x in sub))
    ground = [h for h in hyps if ok(h)]
    n = [0]; leaf = [0]; path0 = path
    try: pr = Prover(ground + path, FALSE, rounds=1, use_sumext=False)
    except RecursionError: return False
    if FALSE in pr.clauses: return True
    gt = {x for x in subterms([goal] + path) if x.loose == 0}
    if any(x.op in ('tdiv', 'tmod') for x in gt): pr.misc(gt, 9)
    cv = Conv(pr, False)
    for x in gt:
        if x.op in ('le0', 'eq0', 'lt0') and x.args[0].sort == 'Int' and not any(y.op in ('forall', 'lam', 'sum', 'ite') for y in subterms([x])): cv.t(x)
    fs = [cv.b(c) for c in pr.clauses] + cv.lemmas(); z = z3.Solver(); z.set('timeout', 300); z.add(fs)
    def dead(c): return z.check(cv.t(c)) == z3.unsat
    # quotients that are known polynomials
    m = {}
    for x in sorted(gt, key=lambda x: x.id):
        if x.op in ('tdiv', 'tmod') and not any(y.op == 'ite' for y in subterms([x])):
            a, b = x.args; qr = polydiv(a, b)
            if qr is not None and z.check(z3.Not(cv.t(and_(lt(I(0), b), le(I(0), qr[1]), lt(qr[1], b), le(I(0), a))))) == z3.unsat: m[x] = qr[0] if x.op == 'tdiv' else qr[1]
    if m:
        goal = or_(*[not_(x) for x in path], goal) if goal.args[0] is I(1) else goal
        return split_equal(hyps + path, subst(goal, m), limit, seconds)
    def unify(t, path):
        """use the equations of the path"""
        for q in path:
            if q.op != 'eq0' or q.args[0].sort != 'Int': continue
            if q.args[0].op == 'var': t = subst(t, {q.args[0]: I(0)}); continue
            if q.args[0].op != 'poly': continue
            for m, c in q.args[0].args:
                if len(m) == 1 and m[0].op == 'var' and abs(c) == 1:
                    v = m[0]; rest = scale(sub(q.args[0], scale(v, c)), -1 / c)
                    if not occurs(v, rest): t = subst(t, {v: rest}); break
        return t
    def atoms(t):
        """an atomic condition that decides an if-then-else of values"""
        for x in sorted(subterms([t]), key=lambda x: x.id):
            if x.op == 'ite' and x.loose == 0 and not any(y.op == 'ite' for y in subterms([x.args[0]])):
                c = x.args[0]
                while c.op in ('and', 'or', 'not'): c = c.args[0]
                return c
        return None
    def go(p, path):
        n[0] += 1
        if n[0] > limit or time.time() - t0 > seconds: raise TooMany()
        if p.op == 'num' and p.args[0] == 0: return True
        c = atoms(p)
        if c is None or c.loose:
            if z.check() == z3.unsat: return True
            u = unify(p, path)
            if u.op == 'num' and u.args[0] == 0: return True
            if u is not p and atoms(u) is not None: return go(u, path)
            if leaf[0] < 12:
                leaf[0] += 1
                if prove(ground + path0 + path, eq(u, num(0, u.sort)), timeout=1000, rounds=1, nl=False)[0] == 'proved': return True
            if TRACE: print('SPLIT', show(u)[:600], [show(x)[:80] for x in path])
            return False
        for q, m in ((c, {c: TRUE, not_(c): FALSE}), (not_(c), {c: FALSE, not_(c): TRUE})):
            if dead(q): continue
            z.push(); z.add(cv.t(q))
            try:
                if not go(unify(subst(p, m), [q]), path + [q]): return False
            finally: z.pop()
        return True
    try: return go(p, path)
    except (TooMany, RecursionError):
        if TRACE: print('SPLIT gives up', n, time.time() - t0)
        return False

def prove(hyps, goal, timeout=6000, hints=(), rounds=3, want_model=False, nl=True, flat=True):
    """('proved'|'failed'|'unknown', backend, info)"""
    t0 = time.time()
    STATS['queries'] += 1
    try:
        if goal is TRUE: return ('proved', 'simplifier', None)
        if FALSE in hyps: return ('proved', 'simplifier', None)
        if rounds == 2 and nl and any(x.op == 'ite' for x in subterms([goal])) and split_equal(list(hyps), goal): return ('proved', 'cases', None)
        pr = Prover(hyps, goal, hints=hints, rounds=rounds, flat=flat)
        if FALSE in pr.clauses: return ('proved', 'simplifier', None)
        fs, cv = pr.toz3(False)
        s = z3.SolverFor('QF_UFLIRA') if False else z3.Solver()
        s.set('timeout', timeout)
        s.add(fs)
        r = s.check()
        if r == z3.unsat: STATS['z3'] += 1; return ('proved', 'z3', None)
        if not nl: return ('failed' if r == z3.sat else 'unknown', 'z3', None)
        if not cv.monos and r == z3.sat:
            return ('failed', 'z3', model_of(s, cv) if want_model else None)
        fs2, cv2 = pr.toz3(True)
        s2 = z3.Solver(); s2.set('timeout', timeout); s2.add(fs2); 
        r2 = s2.check()
        if r2 == z3.unsat: STATS['z3-nl'] += 1; return ('proved', 'z3-nl', None)
        if r2 == z3.sat: return ('failed', 'z3-nl', model_of(s2, cv2) if want_model else None)
        if r == z3.sat and want_model:
            return ('failed?', 'z3', model_of(s, cv))
        return ('failed?' if r == z3.sat else 'unknown', 'z3', None)
    finally:
        STATS['time'] += time.time() - t0

def model_of(s, cv):
    try:
        m = s.model()
    except Exception:
        return None
    out = {}
    for t, z in cv.memo.items():
        if t.op in ('var', 'app', 'sel') and t.sort in ('Int', 'Real', 'Bool'):
            v = m.eval(z, model_completion=False)
            if z3.is_int_value(v) or z3.is_rational_value(v) or z3.is_true(v) or z3.is_false(v):
                out[show(t)[:80]] = str(v)
        if len(out) > 60: break
    return out
