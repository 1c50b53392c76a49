from .common import *
from .c27 import virtual
ASSUME = ['inputs and errors are mathematical reals (no NaN)']
CLS = ('MaxPooling1D', 'MaxPooling2D')
def best(t, idx, k, n, m):
    """m is the cell of the highest value among the first n cells of window k that are inside the input"""
    return and_(le(I(0), m), exin(n, lambda i: eq(idx(k, i), m)), allin(n, lambda i: implies(le(I(0), idx(k, i)), le(sel(t.el, idx(k, i)), sel(t.el, m)))))
def layer(ex, cls):
    o = ex.obj('layer', cls); s = ex.read(o)
    ki, S, nI = s.f['kernelIndexes'], s.f['sizeOfNeuronInputs'], s.f['numberOfInputs']
    K = ki.len; idx = lambda k, e: sel(sel(ki.el.el, k), e)
    ex.req(le(I(1), K), le(I(1), S), le(I(1), nI), eq(s.f['numberOfKernels'], K), eq(s.f['maxValueIndexes'].len, K))
    ex.req(allin(K, lambda k: and_(eq(sel(ki.el.len, k), S), le(I(0), idx(k, I(0))))), allin2(K, S, lambda k, e: and_(le(I(-1), idx(k, e)), lt(idx(k, e), nI))))
    return o, s, K, S, nI, idx
def forward(cls):
    def u(P):
        ex = Ctx(P, cls)
        o, s, K, S, nI, idx = layer(ex, cls)
        v = ex.obj('inputs', ('vec', ('real',))); t = ex.read(v)
        ex.req(eq(t.len, nI))
        def inv(e, L):
            M = lambda tau: L.tree(o, tau).f['maxValueIndexes'].el
            if len(e.ctx) == 0: return []
            k = e.ctx[-1]
            return [('the highest cell so far', lambda tau: or_(best(t, idx, k, tau, sel(M(tau), k)), and_(eq(sel(M(tau), k), I(-1)), allin(tau, lambda i: lt(idx(k, i), I(0))))))]
        ex.cands.append(inv)
        r = ex.go(virtual(P, cls, 'computeOutput'), o, (v, V('reset', 'Bool')))
        m = ex.read(o).f['maxValueIndexes']
        ex.post('one winner per window', eq(m.len, K))
        ex.post('every window has a winner', allin(K, lambda k: le(I(0), sel(m.el, k))))
        ex.post('no cell of the window has a higher value than the winner', allin2(K, S, lambda k, i: implies(le(I(0), idx(k, i)), le(sel(t.el, idx(k, i)), sel(t.el, sel(m.el, k))))))
        ex.post('the winner is a cell of the window', allin(K, lambda k: exin(S, lambda i: eq(idx(k, i), sel(m.el, k)))))
        ex.post('one output per window: the value of the winner', and_(eq(r.len, K), allin(K, lambda k: eq(sel(r.el, k), sel(t.el, sel(m.el, k))))))
        ex.post('the output is not less than any value of the window', allin2(K, S, lambda k, i: implies(le(I(0), idx(k, i)), le(sel(t.el, idx(k, i)), sel(r.el, k)))))
        ex.post('the inputs are left alone', treeeq(ex.read(v), t))
        unchanged(ex, 'computeOutput', o, s, but=('maxValueIndexes',))
        return ex
    return u
def back(cls):
    def u(P):
        ex = Ctx(P, cls)
        o, s, K, S, nI, idx = layer(ex, cls)
        v = ex.obj('inputErrors', ('vec', ('real',))); t = ex.read(v); m = s.f['maxValueIndexes'].el
        # the winners are cells, and those of different windows differ (windows do not overlap)
        ex.req(eq(t.len, K), allin(K, lambda k: inr(I(0), sel(m, k), nI)), allin2(K, K, lambda a, b: implies(not_(eq(a, b)), not_(eq(sel(m, a), sel(m, b))))))
        def inv(e, L):
            E = L.unsolved[0]; X = lambda tau: L.at(E, tau)
            return [('errors of winners', lambda tau: allin(tau, lambda k: eq(sel(X(tau), sel(m, k)), sel(t.el, k)))),
                    ('other cells have none', lambda tau: forall(['Int'], lambda c: implies(allin(tau, lambda k: not_(eq(sel(m, k), c))), eq(sel(X(tau), c), R(0)))))]
        ex.cands.append(inv)
        r = ex.go(virtual(P, cls, 'computeBackOutput'), o, (v,))
        ex.post('one error per input', eq(r.len, nI))
        ex.post('the error of an output goes to the winner of its window', allin(K, lambda k: eq(sel(r.el, sel(m, k)), sel(t.el, k))))
        ex.post('all other cells get zero', allin(nI, lambda c: implies(allin(K, lambda k: not_(eq(sel(m, k), c))), eq(sel(r.el, c), R(0)))))
        ex.post('the errors of the outputs are left alone', treeeq(ex.read(v), t))
        unchanged(ex, 'computeBackOutput', o, s)
        return ex
    return u
def build(cls):
    two = cls.endswith('2D')
    def u(P):
        ex = Ctx(P, cls)
        mo = ex.obj('model', 'LayerModel'); t = ex.read(mo)
        sh, kS = t.f['shapeOfInput'], t.f['kernelSize']
        C, X, Y = [sel(sh.el, I(i)) for i in range(3)]
        if not two: Y = I(1)
        ex.req(eq(sh.len, I(3 if two else 2)), le(I(1), C), le(I(1), kS), le(kS, X), *([le(kS, Y)] if two else []))
        up = lambda a: add(tdiv(a, kS), ite(eq(tmod(a, kS), I(0)), I(0), I(1)))
        oX, oY = up(X), up(Y) if two else I(1)
        K = prod(oX, oY, C); S = mul(kS, kS) if two else kS
        ex.req(eq(t.f['numberOfOutputs'], K), eq(t.f['numberOfKernels'], K), eq(t.f['numberOfInputs'], prod(X, Y, C)), eq(t.f['numberOfNeurons'], I(0)))
        randoms(ex, '*::randomInitializeWeight'); activations(ex)
        ex.contracts['ActivationFunction::get'] = lambda e, fn, this, a, n: app('activation of kind', [e.val(a[0])], 'Ref')
        ex.contracts['LayerOptimizerFactory::build'] = lambda *a: None
        full = next(c for c in P.classes if c.split('::')[-1] == cls)
        lv = ex.create('layer', full, byparams(P, '%s::%s' % (cls, cls), 1, 'LayerModel'), (mo,))
        s = ex.read(lv); ki = s.f['kernelIndexes']
        ex.post('one window per output', and_(eq(ki.len, K), eq(s.f['maxValueIndexes'].len, K), allin(K, lambda k: eq(sel(ki.el.len, k), S))))
        ch, px = (lambda k: tmod(k, C)), (lambda k: tmod(tdiv(k, C), oX) if two else tdiv(k, C))
        py = lambda k: tdiv(tdiv(k, C), oX)
        ox, oy = (lambda k, x: add(mul(px(k), kS), x)), (lambda k, y: add(mul(py(k), kS), y))
        cell = lambda k, y, x: add(mul(add(mul(oy(k, y), X), ox(k, x)) if two else ox(k, x), C), ch(k))
        inside = lambda k, y, x: and_(lt(ox(k, x), X), *([lt(oy(k, y), Y)] if two else []))
        dom = lambda k, y, x: and_(inr(I(0), k, K), inr(I(0), y, kS if two else I(1)), inr(I(0), x, kS))
        at = lambda k, y, x: sel(sel(ki.el.el, k), add(mul(y, kS), x) if two else x)
        ex.post('window k has the cells of its channel at its place, cut at the border', forall(['Int'] * 3, lambda k, y, x: implies(dom(k, y, x), eq(at(k, y, x), ite(inside(k, y, x), cell(k, y, x), I(-1))))))
        # ghost: names of the numbers of windows
        wX, wY = V('windows per row'), V('windows per column')
        e1, e2 = eq(wX, oX), eq(wY, oY)
        ex.axiom(e1); ex.axiom(e2)
        G = [h for h in list(ex.facts) + list(ex.S.pc) if not any(x.op in ('forall', 'lam', 'sum') for x in subterms([h]))]
        b0 = ex.post('windows have a width', and_(le(I(1), wX), le(I(1), wY)), G)
        n0 = ex.post('every window has a row', allin(prod(wX, wY, C), lambda k: inr(I(0), tdiv(k, C), mul(wX, wY))), [b0, le(I(1), C)])
        n1 = ex.post('rows of windows', allin(mul(wX, wY), lambda q: inr(I(0), tdiv(q, wX), wY)), [b0])
        n2 = ex.post('rows of windows are inside', allin(wY, lambda r: lt(mul(r, kS), Y)), G) if two else TRUE
        n3 = ex.post('columns of windows are inside', allin(wX, lambda r: lt(mul(r, kS), X)), G)
        ex.post('the first cell of a window is inside', allin(K, lambda k: inside(k, I(0), I(0))), [e1, e2, b0, n0, n1, n2, n3, le(I(1), C)])
        ex.post('no window leaves the input', forall(['Int'] * 3, lambda k, y, x: implies(dom(k, y, x), and_(le(I(-1), at(k, y, x)), lt(at(k, y, x), t.f['numberOfInputs'])))))
        def owner(i):
            q = tdiv(i, C)
            return add(mul(add(mul(tdiv(tdiv(q, X), kS), oX), tdiv(tmod(q, X), kS)) if two else tdiv(q, kS), C), tmod(i, C))
        D = [h for h in list(ex.facts) + list(ex.S.pc) if not any(x.op in ('forall', 'lam', 'sum') for x in subterms([h]))]
        ex.post('windows do not overlap: a cell tells its window', forall(['Int'] * 3, lambda k, y, x: implies(and_(dom(k, y, x), inside(k, y, x)), eq(owner(cell(k, y, x)), k))), D)
        so = s.f['shapeOfOutput']
        ex.post('the shape of the output', and_(eq(so.len, I(3 if two else 2)), eq(sel(so.el, I(0)), C), eq(sel(so.el, I(1)), oX), *([eq(sel(so.el, I(2)), oY)] if two else [])))
        return ex
    return u
UNITS = [('%s computeOutput' % c, forward(c)) for c in CLS] + [('%s computeBackOutput' % c, back(c)) for c in CLS] + [('%s windows' % c, build(c)) for c in CLS]
