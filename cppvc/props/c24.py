from .common import *
EXTRA = '''#include "Tools.hpp"
namespace snn { namespace tools { void instantiate() {
    std::vector<int> a; std::vector<float> b; std::vector<double> c; vector2D<float> d; vector2D<int> e;
    getMinValue(a); getMinValue(b); getMinValue(c); getMaxValue(a); getMaxValue(b); getMaxValue(c); flatten(d); flatten(e); } } }
'''
def coords(P):
    ex = Ctx(P, 'coords')
    x, y, z, X, Y = [var(s, 'Int') for s in ('x', 'y', 'z', 'X', 'Y')]
    x2, y2, z2 = [var(s, 'Int') for s in ('x2', 'y2', 'z2')]
    Z = var('Z', 'Int')
    def box(*vs):
        return and_(*[and_(le(I(0), a), lt(a, A)) for a, A in zip(vs, (X, Y, Z))])
    ex.req(le(I(1), X), le(I(1), Y), le(I(1), Z))
    f = P.find
    b = ex.S
    ex.S = b.fork(box(x, y))
    i = ex.go(f('tools::flatten', 3) if False else byparams(P, 'flatten', 3), None, (x, y, X))
    ex.post('flatten of two coordinates stays inside the box', and_(le(I(0), i), lt(i, mul(X, Y))))
    ex.post('roughenX inverts flatten (2)', eq(ex.go(byparams(P, 'roughenX', 2), None, (i, X)), x))
    ex.post('roughenY inverts flatten (2)', eq(ex.go(byparams(P, 'roughenY', 2), None, (i, X)), y))
    ex.S = ex.S.fork(box(x2, y2))
    j = ex.go(byparams(P, 'flatten', 3), None, (x2, y2, X))
    ex.S = ex.S.fork(eq(i, j))
    ex.post('flatten is injective (2)', and_(eq(x, x2), eq(y, y2)))
    ex.S = b.fork(box(x, y, z))
    i = ex.go(byparams(P, 'flatten', 5), None, (x, y, z, X, Y))
    ex.post('flatten of three coordinates stays inside the box', and_(le(I(0), i), lt(i, mul(mul(X, Y), Z))))
    ex.post('roughenX inverts flatten (3)', eq(ex.go(byparams(P, 'roughenX', 3), None, (i, X, Y)), x))
    ex.post('roughenY inverts flatten (3)', eq(ex.go(byparams(P, 'roughenY', 3), None, (i, X, Y)), y))
    ex.post('roughenZ inverts flatten (3)', eq(ex.go(byparams(P, 'roughenZ', 3), None, (i, X, Y)), z))
    ex.S = ex.S.fork(box(x2, y2, z2))
    j = ex.go(byparams(P, 'flatten', 5), None, (x2, y2, z2, X, Y))
    ex.S = ex.S.fork(eq(i, j))
    ex.post('flatten is injective (3)', and_(eq(x, x2), eq(y, y2), eq(z, z2)))
    return ex
def extremum(name, ty, better):
    def u(P):
        ex = Ctx(P, name + ty)
        v = ex.obj('v', ('vec', (ty,)) if ty != 'real' else ('vec', ('real',)))
        t = ex.read(v)
        fn = byparams(P, name, 1, {'int': 'vector<int', 'real': 'vector<float'}[ty])
        def inv(e, L):
            val = L.scalar(t.el.sort[1])
            return [('the running value is an element that none of the first t+1 beats', lambda tau: and_(
                forall(['Int'], lambda i: implies(and_(le(I(0), i), le(i, tau)), better(val(tau), sel(t.el, i)))),
                exists(['Int'], lambda i: and_(le(I(0), i), le(i, tau), eq(val(tau), sel(t.el, i))))))]
        ex.cands.append(inv)
        r = ex.go(fn, None, (t,), throws=eq(t.len, I(0)))
        ex.post('no element beats the result', forall(['Int'], lambda i: implies(and_(le(I(0), i), lt(i, t.len)), better(r, sel(t.el, i)))))
        ex.post('the result is an element', exists(['Int'], lambda i: and_(le(I(0), i), lt(i, t.len), eq(r, sel(t.el, i)))))
        return ex
    return u
def rows(P):
    ex = Ctx(P, 'flatten rows')
    v = ex.obj('v', ('vec', ('vec', ('real',))))
    t = ex.read(v)
    fn = byparams(P, 'flatten', 1, 'float')
    off = lambda k: sum_(k, lambda i: sel(t.el.len, i))
    ex.induction('offsets grow', lambda n: forall(['Int'], lambda a: implies(and_(le(I(0), a), lt(a, n)), le(add(off(a), sel(t.el.len, a)), off(n)))))
    def inv(e, L):
        k = next(k for k in L.unsolved if k[1][-1:] == ('el',))
        X = lambda tau: L.at(k, tau)
        return [('earlier rows are in place', lambda tau: forall(['Int', 'Int'], lambda a, i: implies(and_(le(I(0), a), lt(a, tau), le(I(0), i), lt(i, sel(t.el.len, a))),
                 eq(sel(X(tau), add(off(a), i)), sel(sel(t.el.el, a), i)))))]
    ex.cands.append(inv)
    r = ex.go(fn, None, (t,))
    ex.post('size is the sum of the row sizes', eq(r.len, off(t.len)))
    k, i = var('k', 'Int'), var('i', 'Int')
    ex.S = ex.S.fork(and_(le(I(0), k), lt(k, t.len), le(I(0), i), lt(i, sel(t.el.len, k))))
    ex.post('element i of row k is at the sum of the earlier row sizes plus i', eq(sel(r.el, add(off(k), i)), sel(sel(t.el.el, k), i)))
    return ex
UNITS = [('coordinates', coords), ('minimum of ints', extremum('getMinValue', 'int', le)), ('maximum of ints', extremum('getMaxValue', 'int', ge)),
         ('minimum of reals', extremum('getMinValue', 'real', le)), ('maximum of reals', extremum('getMaxValue', 'real', ge)), ('flatten rows', rows)]
