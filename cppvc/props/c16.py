from .common import *
ASSUME = ['data values are mathematical reals']
def mean(name, n0, this):
    """this(ex) -> (object, LV of the sets)"""
    cls, fn, col = n0
    def u(P):
        exs = []
        for b1 in (True, False):
            ex = Ctx(P, name + (' of size one' if b1 else '')); exs.append(ex)
            o, sets = this(ex, cls); s = ex.read(o); w = s.f['numberOfLabels' if cls == 'ProblemComposite' else 'sizeOfData']
            # all rows are equally wide
            lv = sets.i(I(1)).f(col); v = ex.read(lv); ex.write(lv, Ve(v.len, Ve(lam(lambda k: w), v.el.el)))
            s, S = ex.read(o), ex.read(sets); T_ = ex.read(sets.i(I(1)))      # 1: the training set
            rows, sh = T_.f[col], T_.f['shuffledIndexes']
            i, b = V('index'), V('batchSize')
            # a data set that was accepted (C20) in any order (C17): indexes within the rows
            ex.req(le(I(0), i), le(I(1), b), le(add(i, b), sh.len), le(I(0), w))
            ex.req(allin(sh.len, lambda k: inr(I(0), sel(sh.el, k), rows.len)))
            ex.req(le(b, I(1)) if b1 else lt(I(1), b))
            r = ex.go(byparams(P, fn, 2), o, (i, b)); r = ex.read(r.lv if hasattr(r, 'lv') else r)
            row = lambda k: sel(sh.el, add(i, k))
            ex.post('one value per column', eq(r.len, w))
            if b1: ex.post('a batch of one is the entry at that position of the order', allin(w, lambda c: eq(sel(r.el, c), sel(sel(rows.el.el, row(I(0))), c))))
            else:
                c = V('column'); C = inr(I(0), c, w); ex.req(C)      # any column
                f = lambda c, k: sel(sel(rows.el.el, row(k)), c)
                tail = lambda c, n: sum_(n, lambda k: f(c, add(k, I(2))))
                L = ex.induction('the first two entries of a sum', lambda n: eq(sum_(add(n, I(2)), lambda k: f(c, k)), add(f(c, I(0)), f(c, I(1)), tail(c, n))), using=[])
                n = sub(b, I(2))
                M = ex.post('the entries of the batch, divided by their number', eq(sel(r.el, c), rdiv(add(f(c, I(0)), f(c, I(1)), tail(c, n)), toreal(b))))
                ex.post('a batch is the mean of its entries, component by component', eq(sel(r.el, c), rdiv(sum_(b, lambda k: f(c, k)), toreal(b))), [L, M, lt(I(1), b)])
            ex.post('the data set is not changed', treeeq(ex.read(sets), S))
            unchanged(ex, name, o, s, but=('batchedData', 'batchedLabels', 'sets'))
        return exs
    return u
def data(ex, cls):
    o = ex.obj('data', cls); return o, o.f('sets')
def comp(ex, cls):
    o = ex.obj('composite', cls); sets = ex.obj('data.sets', ('vec', ('cls', 'Set'), 2)) 
    p = ex.read(o).f['sets']; ex.ptrs = {p: sets.i(I(0))}
    return o, sets
def route(P):
    """the expected outputs of a batch are asked for at the same index and batch size"""
    exs = []
    for fn, n in (('getTrainingOutputs', 2), ('getTestingOutputs', 1)):
        ex = Ctx(P, fn); exs.append(ex); o = ex.obj('data', 'Data'); s = ex.read(o); out = ex.obj('outputs', ('vec', ('real',)))
        a0 = [V('index'), V('batchSize')][:n]; calls = ex.newroot('ghost:calls', I(0))
        def get(e, f, lv, a, nd):
            e.oblig('post', '%s asks for the same position' % fn, and_(eq(e.read(lv), s.f['problemComposite']), *[eq(e.val(x), y) for x, y in zip(a, a0)]), nd); e.write(calls, add(e.read(calls), I(1)))
            return out
        ex.contracts['obj:' + fn] = get
        r = ex.go(byparams(P, 'Data::' + fn, n), o, tuple(a0))
        ex.post('%s returns what the problem asks to learn' % fn, and_(eq(ex.read(calls), I(1)), treeeq(ex.read(r.lv if hasattr(r, 'lv') else r), ex.read(out))))
        unchanged(ex, fn, o, s)
    return exs
UNITS = [('inputs', mean('getTrainingData', ('Data', 'Data::getTrainingData', 'inputs'), data)), ('labels', mean('getTrainingOutputs', ('ProblemComposite', 'ProblemComposite::getTrainingOutputs', 'labels'), comp)), ('routing', route)]
