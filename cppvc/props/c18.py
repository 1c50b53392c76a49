from .common import *
ASSUME = ['data values and the bounds of the interval are mathematical reals (no rounding)']
def norm(P):
    ex = Ctx(P, 'normalize')
    o = ex.obj('data', 'Data'); w = ex.read(o).f['sizeOfData']; a, b = V('min', 'Real'), V('max', 'Real')
    # all rows of an accepted data set are equally wide (C20); 0: testing, 1: training
    for k in (0, 1):
        lv = o.f('sets').i(I(k)).f('inputs'); v = ex.read(lv); ex.write(lv, Ve(v.len, Ve(lam(lambda i: w), v.el.el)))
    s = ex.read(o); tr, te = [ex.read(o.f('sets').i(I(k)).f('inputs')) for k in (1, 0)]
    ex.req(le(I(1), tr.len), le(I(0), w), lt(a, b))
    X = lambda v, i, j: sel(sel(v.el.el, i), j)
    def extrema(e, L):
        """a running minimum or maximum of a training column"""
        out = []; j = e.ctx[-1]
        for k in L.unsolved:
            if k[1] == () and L.entry.mem[k[0]].sort == 'Real':
                v = (lambda k: lambda tau: L.at(k, tau))(k)
                for nm, f in (('minimum', le), ('maximum', ge)):
                    for off in (0, 1):
                        c = lambda i, tau, off=off: and_(le(I(0), i), lt(i, add(tau, I(off))))
                        out.append(('%s of the column so far' % nm, lambda tau, v=v, f=f, c=c: and_(forall(['Int'], lambda i: implies(c(i, tau), f(v(tau), X(tr, i, j)))), exists(['Int'], lambda i: and_(c(i, tau), eq(v(tau), X(tr, i, j)))) if off else TRUE), 'try'))
        return out
    ex.cands.append(extrema)
    # any column and its smallest and largest training value
    j, lo, hi = V('column'), V('smallest', 'Real'), V('largest', 'Real'); low, high = V('row of the smallest'), V('row of the largest')
    ex.req(inr(I(0), j, w))
    H = [inr(I(0), low, tr.len), inr(I(0), high, tr.len), eq(X(tr, low, j), lo), eq(X(tr, high, j), hi), allin(tr.len, lambda i: and_(le(lo, X(tr, i, j)), le(X(tr, i, j), hi)))]
    ex.req(*H)
    ex.go(byparams(P, 'Data::normalize', 2), o, (a, b))
    ntr, nte = [ex.read(o.f('sets').i(I(k)).f('inputs')) for k in (1, 0)]
    K = V('scale', 'Real'); KX = ite(eq(lo, hi), sub(b, a), rdiv(sub(b, a), sub(hi, lo))); kdef = ex.axiom(eq(K, KX))
    D = ex.axiom(lt(a, b)); L = ex.post('the smallest training value does not exceed the largest', le(lo, hi), H)
    kpos = ex.post('the map of a column is increasing', lt(R(0), K), [kdef, D, L])
    M = {}; E = []
    for nm, old, new in (('training', tr, ntr), ('testing', te, nte)):
        ex.post('%s: as many rows and columns' % nm, and_(eq(new.len, old.len), allin(new.len, lambda i: eq(sel(new.el.len, i), w))))
    for nm, old, new, r in (('training', tr, ntr, V('row')), ('testing', te, nte, V('row')), ('low', tr, ntr, low), ('high', tr, ntr, high)):
        rows = inr(I(0), r, old.len); y = X(new, r, j)
        if not E: E = learn(ex, [y], (lo, hi), 'the loop finds an extremum of the column', H + [inr(I(0), j, w), le(I(1), tr.len)])
        to = lambda k, y: implies(rows, eq(y, add(mul(k, sub(X(old, r, j), lo)), a)))
        # the results of the search replaced by what they are
        y2 = subst(y, {t: c for t, c, _ in E})
        W = ex.post('%s: new value' % nm, eq(y, y2), [x for _, _, x in E])
        N = ex.post('%s: every value of the column goes through the map that takes the training range to the interval' % nm, to(KX, y2), [inr(I(0), j, w)])
        M[nm] = ex.post('%s: every value goes through the map' % nm, to(K, y), [W, N, kdef])
    ML, MH, M = M['low'], M['high'], M['training']
    top = ex.post('a column that is not constant covers the interval', implies(lt(lo, hi), eq(mul(K, sub(hi, lo)), sub(b, a))), [kdef])
    ex.post('the smallest value becomes the lower bound', eq(X(ntr, low, j), a), H + [ML])
    ex.post('the largest value of a column that is not constant becomes the upper bound', implies(lt(lo, hi), eq(X(ntr, high, j), b)), H + [MH, top])
    i = V('row'); row = inr(I(0), i, tr.len); ex.req(row); x = V('value', 'Real')
    e1 = ex.axiom(eq(x, X(tr, i, j)))
    e2 = ex.post('the new value of any row', eq(X(ntr, i, j), add(mul(K, sub(x, lo)), a)), [e1, row, M])
    e3 = ex.post('any row is within the range of the column', and_(le(lo, x), le(x, hi)), H + [e1, row])
    ex.post('no training value is below the interval', le(a, X(ntr, i, j)), [e2, e3, kpos])
    ex.post('no training value is above the interval', le(X(ntr, i, j), b), [e2, e3, kpos, top, D, L])
    T_ = ex.read(o)
    for f in T_.f:
        if f != 'sets': ex.post('normalize leaves %s alone' % f, treeeq(T_.f[f], s.f[f]))
    for k in (0, 1):
        n, m = ex.read(o.f('sets').i(I(k))), None
        S = ex.S; ex.S = State({**ex.S.mem, 'before': s}, ex.S.pc); m = ex.read(LV('before').f('sets').i(I(k))); ex.S = S
        for f in n.f:
            if f != 'inputs': ex.post('normalize leaves %s of the data alone' % f, treeeq(n.f[f], m.f[f]))
    return ex
UNITS = [('normalize', norm)]
