"""Hash-consed first order terms with a polynomial normal form.

Sorts: 'Int', 'Real', 'Bool', any other string = uninterpreted sort, ('A', s) = array Int -> s.
Binders (lam, sum, forall) are locally nameless: bound variables are de Bruijn indexes ('bv').
"""
from fractions import Fraction
import itertools, sys
sys.setrecursionlimit(100000)

_tab = {}
_cnt = itertools.count()

class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'loose', 'fvs', '__weakref__')
    def __repr__(self): return show(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o

def mk(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is None:
        t = T(); t.op = op; t.args = args; t.sort = sort; t.id = next(_cnt)
        lo = 0
        if op == 'bv': lo = args[0] + 1
        elif op == 'poly':
            for m, c in args:
                for a in m: lo = max(lo, a.loose)
        elif op in ('lam', 'sum', 'forall'):
            b = 1 if op != 'forall' else len(args[0])
            for a in args:
                if isinstance(a, T):
                    lo = max(lo, (a.loose - b) if a is args[body_ix(op)] else a.loose)
        else:
            for a in args:
                if isinstance(a, T): lo = max(lo, a.loose)
        t.loose = max(lo, 0)
        t.fvs = None
        _tab[key] = t
    return t

def body_ix(op): return {'lam': 0, 'sum': 0, 'forall': 1}[op]

# ---------------------------------------------------------------- leaves
TRUE = mk('true', (), 'Bool'); FALSE = mk('false', (), 'Bool')
def B(b): return TRUE if b else FALSE
def num(v, sort):
    v = Fraction(v)
    return mk('num', (v,), sort)
def I(v): return num(v, 'Int')
def R(v): return num(v, 'Real')
def var(name, sort): return mk('var', (name,), sort)
_fresh = itertools.count()
def fresh(name, sort): return var('%s!%d' % (name, next(_fresh)), sort)
def bv(i, sort): return mk('bv', (i, sort), sort)
def isnum(t): return t.op == 'num'

# ---------------------------------------------------------------- polynomials
def poly_items(t):
    """term -> dict monomial(tuple of atoms sorted by id) -> coef"""
    if t.op == 'num': return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'poly': return dict(t.args)
    return {(t,): Fraction(1)}

def from_poly(d, sort):
    d = {m: c for m, c in d.items() if c}
    if not d: return num(0, sort)
    if len(d) == 1:
        (m, c), = d.items()
        if not m: return num(c, sort)
        if len(m) == 1 and c == 1: return m[0]
    return mk('poly', tuple(sorted(d.items(), key=lambda kv: tuple(a.id for a in kv[0]))), sort)

def add(*ts):
    sort = ts[0].sort
    d = {}
    for t in ts:
        assert t.sort == sort, (t.sort, sort, ts)
        for m, c in poly_items(t).items(): d[m] = d.get(m, 0) + c
    return from_poly(d, sort)
def neg(t): return scale(t, -1)
def scale(t, k):
    k = Fraction(k)
    return from_poly({m: c * k for m, c in poly_items(t).items()}, t.sort)
def sub(a, b): return add(a, neg(b))
def mono_mul(m1, m2):
    m = tuple(sorted(m1 + m2, key=lambda a: a.id))
    return m
def _cancel(m):
    """x * inv(x) is left alone (x might be 0); handled by lemmas"""
    return m
def mul(a, b):
    assert a.sort == b.sort, (a, b, a.sort, b.sort)
    # distribute over ite when one side is a number only
    d = {}
    pa, pb = poly_items(a), poly_items(b)
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return from_poly(d, a.sort)
def inv(b):
    if b.op == 'num' and b.args[0] != 0: return R(1 / b.args[0])
    if b.op == 'poly' and len(b.args) == 1:
        m, c = b.args[0]
        r = R(1 / c)
        for a in m: r = mul(r, mk('inv', (a,), 'Real'))
        return r
    if b.op == 'inv': return b.args[0]
    return mk('inv', (b,), 'Real')
def rdiv(a, b): return mul(a, inv(b))
def toreal(t):
    if t.sort == 'Real': return t
    if t.op == 'num': return R(t.args[0])
    if t.op == 'poly':
        r = {}
        for m, c in t.args:
            mm = ()
            acc = R(c)
            for a in m: acc = mul(acc, toreal(a))
            for k, v in poly_items(acc).items(): r[k] = r.get(k, 0) + v
        return from_poly(r, 'Real')
    if t.op == 'ite': return ite(t.args[0], toreal(t.args[1]), toreal(t.args[2]))
    return mk('toreal', (t,), 'Real')
def floor_(t):
    if t.op == 'toreal': return t.args[0]
    if t.op == 'num': return I(t.args[0].__floor__())
    if t.op == 'ite': return ite(t.args[0], floor_(t.args[1]), floor_(t.args[2]))
    return mk('floor', (t,), 'Int')
def trunc_(t):
    if t.op == 'toreal': return t.args[0]
    if t.op == 'num':
        v = t.args[0]; return I(int(v))
    return ite(le(R(0), t), floor_(t), neg(floor_(neg(t))))
def tdiv(a, b):
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
        q = abs(a.args[0]) // abs(b.args[0])
        return I(q if (a.args[0] < 0) == (b.args[0] < 0) else -q)
    if b is I(1): return a
    return mk('tdiv', (a, b), 'Int')
def tmod(a, b):
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0: return sub(a, mul(b, tdiv(a, b)))
    if b is I(1): return I(0)
    return mk('tmod', (a, b), 'Int')

# ---------------------------------------------------------------- logic
def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'le0':   # p <= 0  ->  p > 0
        if a.args[0].sort == 'Int': return le0(sub(I(1), a.args[0]))
        return mk('lt0', (neg(a.args[0]),), 'Bool')
    if a.op == 'lt0': return mk('le0', (neg(a.args[0]),), 'Bool') 
    if a.op == 'and': return or_(*[not_(x) for x in a.args])
    if a.op == 'or': return and_(*[not_(x) for x in a.args])
    return mk('not', (a,), 'Bool')
def and_(*xs):
    out = []; seen = set()
    for x in xs:
        for y in (x.args if x.op == 'and' else (x,)):
            if y is FALSE: return FALSE
            if y is TRUE or y in seen: continue
            seen.add(y); out.append(y)
    for y in out:
        if y.op == 'not' and y.args[0] in seen: return FALSE
        if y.op in ('le0', 'lt0') and not_(y) in seen: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    out.sort(key=lambda t: t.id)
    return mk('and', tuple(out), 'Bool')
def or_(*xs):
    out = []; seen = set()
    for x in xs:
        for y in (x.args if x.op == 'or' else (x,)):
            if y is TRUE: return TRUE
            if y is FALSE or y in seen: continue
            seen.add(y); out.append(y)
    for y in out:
        if y.op == 'not' and y.args[0] in seen: return TRUE
        if y.op in ('le0', 'lt0') and not_(y) in seen: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    out.sort(key=lambda t: t.id)
    return mk('or', tuple(out), 'Bool')
def implies(a, b): return or_(not_(a), b)
def iff(a, b): return eq(a, b)
def le0(p):
    if p.op == 'num': return B(p.args[0] <= 0)
    if p.op == 'poly' and p.sort == 'Int':
        from math import gcd
        nc = [c for m, c in p.args if m]
        g = 0
        for c in nc: g = gcd(g, abs(int(c))) if c.denominator == 1 else 1
        if g > 1:
            d = {}
            for m, c in p.args:
                d[m] = c / g if m else Fraction(-((-c) // g))  # tighten: sum + c0 <= 0, sum <= -c0 -> floor
            return mk('le0', (from_poly(d, 'Int'),), 'Bool')
    elif p.op == 'poly':
        k = abs(p.args[-1][1])
        if k != 1: p = scale(p, 1 / k)
    return mk('le0', (p,), 'Bool')
def le(a, b): return le0(sub(a, b))
def ge(a, b): return le(b, a)
def lt(a, b):
    if a.sort == 'Int': return le0(add(sub(a, b), I(1)))
    p = sub(a, b)
    if p.op == 'num': return B(p.args[0] < 0)
    if p.op == 'poly':
        k = abs(p.args[-1][1])
        if k != 1: p = scale(p, 1 / k)
    return mk('lt0', (p,), 'Bool')
def gt(a, b): return lt(b, a)
def ite_const(d):
    """(c, p, q) when d is the number p under c and q otherwise"""
    if d.op == 'ite': k, c0, a = Fraction(1), Fraction(0), d
    elif d.op == 'poly' and len(d.args) <= 2:
        it = dict(d.args); c0 = it.pop((), Fraction(0))
        if len(it) != 1: return None
        (m, k), = it.items()
        if len(m) != 1: return None
        a = m[0]
    else: return None
    if a.op != 'ite' or a.args[1].op != 'num' or a.args[2].op != 'num': return None
    return a.args[0], k * a.args[1].args[0] + c0, k * a.args[2].args[0] + c0
def eq(a, b):
    if a is b: return TRUE
    assert a.sort == b.sort, (a, b, a.sort, b.sort)
    if a.sort == 'Bool':
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return not_(b)
        if b is FALSE: return not_(a)
        if not_(a) is b: return FALSE
        if a.id > b.id: a, b = b, a
        return mk('eq', (a, b), 'Bool')
    if a.sort in ('Int', 'Real'):
        d = sub(a, b)
        if d.op == 'num': return B(d.args[0] == 0)
        # if-then-else of numbers against a number
        x = ite_const(d)
        if x is not None:
            (c, p, q) = x
            return ite(c, B(p == 0), B(q == 0))
        # canonical sign
        if d.op == 'poly':
            k = d.args[-1][1]
            d = scale(d, 1 / k) if a.sort == 'Real' else (neg(d) if k < 0 else d)
            if a.sort == 'Int' and d.op == 'poly':
                from math import gcd
                g = 0
                for m, c in d.args:
                    if m: g = gcd(g, abs(int(c)))
                if g > 1:
                    c0 = dict(d.args).get((), Fraction(0))
                    if c0 % g: return FALSE
                    d = scale(d, Fraction(1, g))
        return mk('eq0', (d,), 'Bool')
    if a.id > b.id: a, b = b, a
    if a.op == 'lit' and b.op == 'lit': return FALSE
    return mk('eq', (a, b), 'Bool')
def ne(a, b): return not_(eq(a, b))
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == 'Bool':
        if a is TRUE: return or_(c, b)
        if a is FALSE: return and_(not_(c), b)
        if b is TRUE: return or_(not_(c), a)
        if b is FALSE: return and_(c, a)
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    if c.op == 'not': return ite(c.args[0], b, a)
    return mk('ite', (c, a, b), a.sort)

# ---------------------------------------------------------------- functions and arrays
def app(f, args, sort): return mk('app', (f,) + tuple(args), sort)
def lit(name, sort): return mk('lit', (name,), sort)
def lam(f):
    """array from python function over a term"""
    v = fresh('l', 'Int')
    return abstract_lam(v, f(v))
def abstract_lam(v, body):
    b = close(body, [v])
    # eta
    if b.op == 'sel' and b.args[1].op == 'bv' and b.args[1].args[0] == 0 and b.args[0].loose == 0:
        return b.args[0]
    return mk('lam', (b,), ('A', body.sort))
def sel(a, i):
    o = a.op
    if o == 'sto':
        c = eq(i, a.args[1])
        if c is TRUE: return a.args[2]
        if c is FALSE: return sel(a.args[0], i)
        return ite(c, a.args[2], sel(a.args[0], i))
    if o == 'lam': return open_(a.args[0], i)
    if o == 'ite': return ite(a.args[0], sel(a.args[1], i), sel(a.args[2], i))
    return mk('sel', (a, i), a.sort[1])
def sto(a, i, v):
    assert a.sort == ('A', v.sort), (a.sort, v.sort)
    if v.op == 'sel' and v.args[0] is a and v.args[1] is i: return a
    if a.op == 'sto' and a.args[1] is i: return sto(a.args[0], i, v)
    if a.op == 'sto' and i.op == 'num' and a.args[1].op == 'num' and a.args[1].args[0] > i.args[0]:
        return sto(sto(a.args[0], i, v), a.args[1], a.args[2])      # constant indexes in increasing order
    return mk('sto', (a, i, v), a.sort)
def forall(sorts, f):
    vs = [fresh('q', s) for s in sorts]
    return abstract_forall(vs, f(*vs))
def abstract_forall(vs, body):
    if body is TRUE: return TRUE
    if body is FALSE: return FALSE
    b = close(body, vs)
    if b.loose == 0 and b is body: return body
    return mk('forall', (tuple(v.sort for v in vs), b), 'Bool')
def exists(sorts, f): return not_(forall(sorts, lambda *v: not_(f(*v))))

def sum_(n, f, lo=None):
    """sum of f(j), lo <= j < n (0 when n <= lo)"""
    if lo is not None and lo is not I(0):
        return sum_(sub(n, lo), lambda j: f(add(j, lo)))
    v = fresh('s', 'Int')
    return abstract_sum(v, f(v), n)
def abstract_sum(v, body, n):
    if n.op == 'num' and n.args[0] <= 0: return num(0, body.sort)
    sort = body.sort
    # the range of the summation is known inside
    body = subst(body, {le(I(0), v): TRUE, lt(v, n): TRUE, lt(v, I(0)): FALSE, le(n, v): FALSE})
    # push sums through ite with condition free of v
    if body.op == 'ite' and not occurs(v, body.args[0]):
        return ite(body.args[0], abstract_sum(v, body.args[1], n), abstract_sum(v, body.args[2], n))
    tot = num(0, sort)
    for m, c in poly_items(body).items():
        dep = [a for a in m if occurs(v, a)]; free = [a for a in m if not occurs(v, a)]
        coef = num(c, sort)
        for a in free: coef = mul(coef, a)
        if not dep:
            cnt = ite(le(I(0), n), n, I(0))
            tot = add(tot, mul(coef, toreal(cnt) if sort == 'Real' else cnt)); continue
        p = num(1, sort)
        for a in dep: p = mul(p, a)
        one = onepoint(v, p, n) if any(a.op == 'ite' for a in dep) else None
        if one is not None: tot = add(tot, mul(coef, one)); continue
        if len(dep) == 1 and p.op == 'ite':
            # common factor of if-then-else with zero
            k, free, p = content(v, p)
            coef = scale(coef, k)
            for a in free: coef = mul(coef, a)
        tot = add(tot, mul(coef, mk('sum', (close(p, [v]), n), sort)))
    return tot
def content(v, t):
    """t = k * product of free * rest, for t = ite(c, x, 0) or ite(c, 0, x) with one monomial x"""
    c, a, b = t.args
    for x, other in ((a, b), (b, a)):
        if other.op == 'num' and other.args[0] == 0 and x.op not in ('num', 'ite'):
            it = poly_items(x)
            if len(it) != 1: continue
            (m, k), = it.items()
            free = [y for y in m if not occurs(v, y)]; dep = [y for y in m if occurs(v, y)]
            if k == 1 and not free: return 1, [], t
            r = num(1, t.sort)
            for y in dep: r = mul(r, y)
            return k, free, (ite(c, r, other) if x is a else ite(c, other, r))
    return 1, [], t
def onepoint(v, p, n):
    """sum over v of p when p is zero for all but one value of v"""
    seen = set()
    for x in subterms([p]):
        if x.op != 'ite': continue
        cs = x.args[0].args if x.args[0].op in ('and', 'or') else (x.args[0],)
        for c in cs:
            if c.op == 'not': c = c.args[0]
            if c in seen or c.op != 'eq0' or c.args[0].sort != 'Int' or c.loose: continue
            seen.add(c)
            it = poly_items(c.args[0])
            k = it.get((v,))
            if k is None or abs(k) != 1 or any(v in m and m != (v,) for m in it): continue
            e = scale(sub(c.args[0], scale(v, k)), -1 / k)
            if occurs(v, e): continue
            z = subst(p, {c: FALSE})
            if z.op == 'num' and z.args[0] == 0:
                return ite(and_(le(I(0), e), lt(e, n)), subst(p, {v: e}), num(0, p.sort))
    return None

# ---------------------------------------------------------------- traversals
def children(t):
    if t.op == 'poly':
        for m, c in t.args:
            for a in m: yield a
    else:
        for a in t.args:
            if isinstance(a, T): yield a

def occurs(v, t):
    return v in free_vars(t)
_EMPTY = frozenset()
def free_vars(t):
    if t.fvs is None:
        if t.op == 'var': t.fvs = frozenset((t,))
        else:
            s = _EMPTY
            for c in children(t):
                f = free_vars(c)
                if f and not f <= s: s = s | f
            t.fvs = s
    return t.fvs

def rebuild(t, f, fb):
    """rebuild t with children mapped by f; fb maps the body of a binder (t, body, number of binders)"""
    o = t.op
    if o in ('var', 'num', 'true', 'false', 'lit', 'bv'): return t
    if o == 'poly':
        r = {}
        for m, c in t.args:
            acc = num(c, t.sort)
            for a in m: acc = mul(acc, f(a))
            for k, v in poly_items(acc).items(): r[k] = r.get(k, 0) + v
        return from_poly(r, t.sort)
    if o == 'lam':
        b = fb(t.args[0], 1)
        if b is t.args[0]: return t
        if b.op == 'sel' and b.args[1].op == 'bv' and b.args[1].args[0] == 0 and not has_bv(b.args[0], 0):
            return shift(b.args[0], -1)
        return mk('lam', (b,), t.sort)
    if o == 'sum':
        b = fb(t.args[0], 1); n = f(t.args[1])
        if b is t.args[0] and n is t.args[1]: return t
        # renormalise through a fresh variable when the body is closed enough
        if b.loose <= 1:
            v = fresh('s', 'Int')
            return abstract_sum(v, open_(b, v), n)
        return mk('sum', (b, n), t.sort)
    if o == 'forall':
        b = fb(t.args[1], len(t.args[0]))
        if b is t.args[1]: return t
        if b in (TRUE, FALSE): return b
        return mk('forall', (t.args[0], b), 'Bool')
    a = t.args
    if o == 'not': return not_(f(a[0]))
    if o == 'and': return and_(*[f(x) for x in a])
    if o == 'or': return or_(*[f(x) for x in a])
    if o == 'le0': return le0(f(a[0]))
    if o == 'lt0':
        p = f(a[0]); return lt(p, num(0, p.sort))
    if o == 'eq0':
        p = f(a[0]); return eq(p, num(0, p.sort))
    if o == 'eq': return eq(f(a[0]), f(a[1]))
    if o == 'ite': return ite(f(a[0]), f(a[1]), f(a[2]))
    if o == 'sel': return sel(f(a[0]), f(a[1]))
    if o == 'sto': return sto(f(a[0]), f(a[1]), f(a[2]))
    if o == 'app': return app(a[0], [f(x) for x in a[1:]], t.sort)
    if o == 'inv': return inv(f(a[0]))
    if o == 'toreal': return toreal(f(a[0]))
    if o == 'floor': return floor_(f(a[0]))
    if o == 'tdiv': return tdiv(f(a[0]), f(a[1]))
    if o == 'tmod': return tmod(f(a[0]), f(a[1]))
    raise Exception('rebuild ' + o)

def has_bv(t, i):
    if t.loose <= i: return False
    if t.op == 'bv': return t.args[0] == i
    if t.op == 'lam': return has_bv(t.args[0], i + 1)
    if t.op == 'sum': return has_bv(t.args[0], i + 1) or has_bv(t.args[1], i)
    if t.op == 'forall': return has_bv(t.args[1], i + len(t.args[0]))
    return any(has_bv(c, i) for c in children(t))

def shift(t, d, cut=0):
    if d == 0 or t.loose <= cut: return t
    memo = {}
    def go(t, cut):
        if t.loose <= cut: return t
        k = (t, cut)
        if k in memo: return memo[k]
        if t.op == 'bv': r = bv(t.args[0] + d, t.sort)
        else: r = rebuild(t, lambda x: go(x, cut), lambda b, n: go(b, cut + n))
        memo[k] = r
        return r
    return go(t, cut)

def open_(body, *ts):
    """replace bound variable indexes 0..n-1 (0 = last of ts ... n-1 = first) and lower the others"""
    n = len(ts)
    memo = {}
    def go(t, d):
        if t.loose <= d: return t
        k = (t, d)
        if k in memo: return memo[k]
        if t.op == 'bv':
            i = t.args[0]
            if i < d: r = t
            elif i < d + n: r = shift(ts[n - 1 - (i - d)], d)
            else: r = bv(i - n, t.sort)
        else: r = rebuild(t, lambda x: go(x, d), lambda b, m: go(b, d + m))
        memo[k] = r
        return r
    return go(body, 0)

def close(t, vs):
    n = len(vs); ix = {v: n - 1 - k for k, v in enumerate(vs)}
    vset = frozenset(vs)
    memo = {}
    def go(t, d):
        if t.loose <= d and not (free_vars(t) & vset): return t
        k = (t, d)
        if k in memo: return memo[k]
        if t.op == 'var': r = bv(ix[t] + d, t.sort) if t in ix else t
        elif t.op == 'bv': r = t if t.args[0] < d else bv(t.args[0] + n, t.sort)
        else: r = rebuild_raw(t, lambda x: go(x, d), lambda b, m: go(b, d + m))
        memo[k] = r
        return r
    return go(t, 0)
def rebuild_raw(t, f, fb):
    return rebuild(t, f, fb)

def subst(t, m):
    """replace free variables (or any closed subterms) by terms"""
    if not m: return t
    keys = frozenset(m)
    kv = all(k.op == 'var' for k in m)
    memo = {}
    def go(t):
        if t in m: return m[t]
        if kv and not (free_vars(t) & keys): return t
        if t in memo: return memo[t]
        r = rebuild(t, go, lambda b, n: go(b))
        memo[t] = r
        return r
    return go(t)

def ctxsimp(t):
    """inside a branch of an ite its condition has a known value"""
    memo = {}; has = {}
    def ites(t):
        r = has.get(t)
        if r is None: r = has[t] = t.op == 'ite' or any(ites(x) for x in children(t))
        return r
    def go(t, kn):
        if kn and t.sort == 'Bool':
            for q, v in kn:
                if q is t: return v
        if not kn and not ites(t): return t
        k = (t, kn)
        if k in memo: return memo[k]
        if t.op == 'ite':
            c = go(t.args[0], kn)
            if c is TRUE: r = go(t.args[1], kn)
            elif c is FALSE: r = go(t.args[2], kn)
            else:
                c0 = t.args[0]
                up = tuple((q, TRUE) for q in ((c0,) + c0.args if c0.op == 'and' else (c0,)))
                dn = tuple((q, FALSE) for q in ((c0,) + c0.args if c0.op == 'or' else (c0,)))
                r = ite(c, go(t.args[1], kn + up), go(t.args[2], kn + dn))
        elif t.op == 'and' or t.op == 'or':
            r = rebuild(t, lambda x: go(x, kn), lambda b, n: go(b, ()))
        else: r = rebuild(t, lambda x: go(x, kn), lambda b, n: go(b, ()))
        memo[k] = r
        return r
    return go(t, ())

def subterms(ts):
    seen = set(); st = list(ts)
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t); yield t
        st.extend(children(t))

def show(t, d=0):
    o = t.op; a = t.args
    if o == 'num': return str(a[0])
    if o in ('var', 'lit'): return a[0]
    if o == 'bv': return '#%d' % a[0]
    if o == 'poly':
        out = []
        for m, c in a:
            s = '*'.join(show(x) for x in m)
            out.append((str(c) if not s else (s if c == 1 else '%s*%s' % (c, s))))
        return '(' + ' + '.join(out) + ')'
    if o == 'sel': return '%s[%s]' % (show(a[0]), show(a[1]))
    if o == 'app': return '%s(%s)' % (a[0], ', '.join(show(x) for x in a[1:]))
    if o == 'le0': return '%s <= 0' % show(a[0])
    if o == 'lt0': return '%s < 0' % show(a[0])
    if o == 'eq0': return '%s == 0' % show(a[0])
    if o == 'eq': return '%s == %s' % (show(a[0]), show(a[1]))
    if o in ('and', 'or'): return '(' + (' && ' if o == 'and' else ' || ').join(show(x) for x in a) + ')'
    if o == 'not': return '!(%s)' % show(a[0])
    return o + '(' + ', '.join(show(x) if isinstance(x, T) else str(x) for x in a) + ')'
