"""Differentiation of terms and equality of rational functions of exponentials (trusted calculus; every division is cross multiplied)."""
from .common import *
from fractions import Fraction
from math import gcd
class NoDerivative(Unsupported): pass
def D(t, x, edge):
    """derivative of t with respect to x; edge collects expressions that must not be zero (borders of cases)"""
    if not occurs(x, t): return R(0)
    if t is x: return R(1)
    o = t.op
    if o == 'poly':
        r = R(0)
        for m, c in t.args:
            for i in range(len(m)):
                p = mul(R(c), D(m[i], x, edge))
                for k, a in enumerate(m):
                    if k != i: p = mul(p, a)
                r = add(r, p)
        return r
    if o == 'inv': return neg(mul(mul(t, t), D(t.args[0], x, edge)))
    if o == 'ite':
        c = t.args[0]
        if c.op not in ('le0', 'lt0', 'eq0'): raise NoDerivative('case distinction')
        edge.append(c.args[0])
        return ite(c, D(t.args[1], x, edge), D(t.args[2], x, edge))
    if o == 'app':
        f, u = t.args[0], t.args[1]
        if f == 'exp': return mul(t, D(u, x, edge))
        if f == 'tanh': return mul(sub(R(1), mul(t, t)), D(u, x, edge))
        if f == 'erf': raise NoDerivative('erf')
    raise NoDerivative(show(t))
def args_of(t, x, out):
    for s in subterms([t]):
        if s.op == 'app' and s.args[0] in ('exp', 'tanh') and occurs(x, s): out.append(s.args[1])
def rational(t, x, E, unit, base):
    """(numerator, denominator) of t as polynomials in x and the exponentials E[monomial] = exp(unit * monomial)"""
    def pw(v, k):
        r = R(1)
        for _ in range(k): r = mul(r, v)
        return r
    def expo(u, k=1):
        n, d = R(1), R(1)
        for m, c in poly_items(u).items():
            if m == (): raise NoDerivative('constant factor of an exponential')
            q = Fraction(c) * k / unit
            if q.denominator != 1: raise NoDerivative('exponent')
            e = E.setdefault(m, fresh('E', 'Real'))
            if q >= 0: n = mul(n, pw(e, int(q)))
            else: d = mul(d, pw(e, int(-q)))
        return n, d
    def go(t):
        o = t.op
        if o == 'poly':
            N, Dn = R(0), R(1)
            for m, c in t.args:
                n, d = R(c), R(1)
                for a in m:
                    n2, d2 = go(a); n, d = mul(n, n2), mul(d, d2)
                if d is Dn: N = add(N, n)
                else: N, Dn = add(mul(N, d), mul(n, Dn)), mul(Dn, d)
            return N, Dn
        if o == 'inv':
            n, d = go(t.args[0]); return d, n
        if o == 'app' and t.args[0] == 'exp' and occurs(x, t): return expo(t.args[1])
        if o == 'app' and t.args[0] == 'tanh' and occurs(x, t):
            n, d = expo(t.args[1], 2); return sub(n, d), add(n, d)
        return t, R(1)
    return go(t)
def cases(t):
    """[(conditions, term without case distinctions)]"""
    for s in sorted(subterms([t]), key=lambda s: s.id):
        if s.op == 'ite' and s.sort == 'Real' and not any(y.op == 'ite' for y in subterms([s.args[0]])):
            return [([s.args[0]] + c, r) for c, r in cases(subst(t, {s: s.args[1]}))] + [([not_(s.args[0])] + c, r) for c, r in cases(subst(t, {s: s.args[2]}))]
    return [([], t)]
def rateq(ex, name, a, b, x, hyp=()):
    """obligations for a == b for every real x under hyp"""
    for ca, ta in cases(a):
        for cb, tb in cases(b):
            us = []; args_of(ta, x, us); args_of(tb, x, us)
            cs = [Fraction(c) for u in us for m, c in poly_items(u).items()] or [Fraction(1)]
            den = 1
            for c in cs: den = den * c.denominator // gcd(den, c.denominator)
            g = 0
            for c in cs: g = gcd(g, int(c * den))
            unit = Fraction(g, den)
            E = {}
            na, da = rational(ta, x, E, unit, None); nb, db = rational(tb, x, E, unit, None)
            s = ex.S
            ex.S = s.fork(and_(*ca, *cb, *hyp, *[lt(R(0), e) for e in E.values()]))
            ex.post(name + ': no division by zero', and_(ne(da, R(0)), ne(db, R(0))))
            ex.post(name, eq(mul(na, db), mul(nb, da)))
            ex.S = s
