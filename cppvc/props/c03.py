from .common import *
from .c27 import virtual
from . import c05
ASSUME = ['inputs, weights and outputs are mathematical reals']
CLS = ('Convolution1D', 'Convolution2D', 'LocallyConnected1D', 'LocallyConnected2D')
def forward(cls):
    """output (window k, filter f) is what its neuron makes of the cells of window k (which they are: kernelIndexes)"""
    shared = cls.startswith('Conv')
    def u(P):
        ex = Ctx(P, cls)
        o = ex.obj('layer', cls); v = ex.obj('inputs', ('vec', ('real',))); s, t = ex.read(o), ex.read(v)
        N, nI, ki, F, S = s.f['neurons'].len, s.f['numberOfInputs'], s.f['kernelIndexes'], s.f['numberOfFilters'], s.f['sizeOfNeuronInputs']
        K = ki.len; idx = lambda k, e: sel(sel(ki.el.el, k), e)
        ex.req(le(I(1), F), le(I(1), K), le(I(1), S), eq(t.len, nI), eq(s.f['numberOfKernels'], mul(K, F)), eq(N, F if shared else mul(K, F)))
        ex.req(allin(K, lambda k: eq(sel(ki.el.len, k), S)), allin2(K, S, lambda k, e: and_(le(I(0) if shared else I(-1), idx(k, e)), lt(idx(k, e), nI))))
        calls = ex.newroot('ghost:calls', Ve(N, lam(lambda k: I(0))))
        def out(e, fn, this, a, n):
            # contract of SimpleNeuron::output (C05): a function of the weights of the neuron and the values it gets
            if not (this.root == o.root and len(this.path) == 2 and this.path[0] == ('f', 'neurons')): raise Unsupported('output of another object')
            f = this.path[1][1]; c = calls.i(f); b = e.read(c)
            k = b if shared else tdiv(f, F); x = e.read(a[0])
            e.oblig('post', 'the neuron of a filter gets the windows one after the other' if shared else 'every neuron works once', and_(inr(I(0), f, N), *([lt(b, K)] if shared else [eq(b, I(0))])), n)
            e.oblig('post', 'a neuron gets the values of the cells of its window, and zero for cells outside', and_(eq(x.len, S), allin(S, lambda i: eq(sel(x.el, i), ite(le(I(0), idx(k, i)), sel(t.el, idx(k, i)), R(0))))), n)
            e.write(c, add(b, I(1)))
            return app('neuron', [f, b], 'Real')
        ex.contracts['SimpleNeuron::output'] = out
        r = ex.go(virtual(P, cls, 'computeOutput'), o, (v, V('reset', 'Bool')))
        ex.post('one output per window and filter', eq(r.len, mul(K, F)))
        ex.post('the outputs are ordered by window, then filter', forall(['Int', 'Int'], lambda k, f: implies(and_(inr(I(0), k, K), inr(I(0), f, F)), eq(sel(r.el, add(mul(k, F), f)), app('neuron', [f, k] if shared else [add(mul(k, F), f), I(0)], 'Real')))))
        ex.post('the inputs are left alone', treeeq(ex.read(v), t))
        unchanged(ex, 'computeOutput', o, s)
        return ex
    return u
def model(ex, cls):
    """a layer model as the factory prepares it (C01, C02)"""
    m = ex.obj('model', 'LayerModel'); t = ex.read(m); two = cls.endswith('2D')
    sh = t.f['shapeOfInput']; kS, F = t.f['kernelSize'], t.f['numberOfFilters']
    C, X, Y = [sel(sh.el, I(i)) for i in range(3)]
    ex.req(eq(sh.len, I(3 if two else 2)), le(I(1), C), le(I(1), kS), le(kS, X), *([le(kS, Y)] if two else []), le(I(1), F))
    up = lambda a: add(tdiv(a, kS), ite(eq(tmod(a, kS), I(0)), I(0), I(1)))
    win = (lambda a: add(sub(a, kS), I(1))) if cls.startswith('Conv') else up
    oX, oY = win(X), win(Y) if two else I(1)
    K = mul(oX, oY)
    return m, t, (C, X, Y if two else I(1), kS, F, oX, oY, K)
def expected(cls, C, X, Y, kS, oX):
    """the cell that weight (y, x, c) of window k reads; -1: outside"""
    two = cls.endswith('2D')
    def cell(k, y, x, c):
        px, py = (tmod(k, oX), tdiv(k, oX)) if two else (k, I(0))
        if not cls.startswith('Conv'): px, py = mul(px, kS), mul(py, kS)
        i = add(mul(add(mul(add(py, y), X), px, x), C), c) if two else add(mul(add(px, x), C), c)
        if cls.startswith('Conv'): return i
        return ite(and_(lt(add(px, x), X), *([lt(add(py, y), Y)] if two else [])), i, I(-1))
    return cell
def build(cls):
    two = cls.endswith('2D')
    def u(P):
        ex = Ctx(P, cls)
        m, t, (C, X, Y, kS, F, oX, oY, K) = model(ex, cls)
        S = prod(kS, kS, C) if two else mul(kS, C)
        ex.req(eq(t.f['numberOfKernelsPerFilter'], K), eq(t.f['numberOfKernels'], mul(K, F)), eq(t.f['numberOfInputs'], prod(X, Y, C)), eq(t.f['neuron'].f['numberOfInputs'], S), eq(t.f['neuron'].f['numberOfWeights'], add(S, I(1))), le(I(0), t.f['numberOfNeurons']), le(I(1), t.f['neuron'].f['batchSize']))
        randoms(ex, '*::randomInitializeWeight'); activations(ex)
        ex.contracts['ActivationFunction::get'] = lambda e, fn, this, a, n: app('activation of kind', [e.val(a[0])], 'Ref')
        ex.contracts['LayerOptimizerFactory::build'] = lambda *a: None
        full = next(c for c in P.classes if c.split('::')[-1] == cls)
        lv = ex.create('layer', full, byparams(P, '%s::%s' % (cls, cls), 2), (m, fresh('optimizer', 'Ref')))
        s = ex.read(lv); ki = s.f['kernelIndexes']
        ex.post('one row per window', and_(eq(ki.len, K), allin(K, lambda k: eq(sel(ki.el.len, k), S))))
        cell = expected(cls, C, X, Y, kS, oX)
        ex.post('every weight reads its cell', forall(['Int'] * 4, lambda k, y, x, c: implies(and_(inr(I(0), k, K), inr(I(0), y, kS if two else I(1)), inr(I(0), x, kS), inr(I(0), c, C)), eq(sel(sel(ki.el.el, k), add(mul(add(mul(y, kS), x), C), c)), cell(k, y, x, c)))))
        so = s.f['shapeOfOutput']
        ex.post('the shape of the output', and_(eq(so.len, I(3 if two else 2)), eq(sel(so.el, I(0)), F), eq(sel(so.el, I(1)), oX), *([eq(sel(so.el, I(2)), oY)] if two else [])))
        return ex
    return u
UNITS = [('%s computeOutput' % c, forward(c)) for c in CLS] + [('%s windows' % c, build(c)) for c in CLS]
