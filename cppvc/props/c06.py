from .common import *
from .c27 import virtual
ASSUME = ['errors, weights and derivatives are mathematical reals']
def neuron(cls):
    def u(P):
        ex = Ctx(P, cls + '::backOutput'); o = ex.obj('neuron', cls); s = ex.read(o); activations(ex)
        ex.req(eq(s.f['weights'].len, add(s.f['errors'].len, I(2 if cls == 'RecurrentNeuron' else 1))), eq(s.f['errors'].len, s.f['numberOfInputs']))
        err = V('error', 'Real')
        def upd(e, fn, ref, a, n): e.write(o.f('weights'), Ve(s.f['weights'].len, V('updated weights', ('A', 'Real'))))
        ex.contracts['ref:updateWeights'] = upd
        r = ex.go(byparams(P, cls + '::backOutput', 1), o, (err,))
        t = ex.read(r)
        ex.post('one error per input', eq(t.len, s.f['numberOfInputs']))
        ex.post('the error of an input is the error of the output times the derivative times the weight of the forward pass', allin(s.f['numberOfInputs'], lambda i: eq(sel(t.el, i), mul(mul(err, app('activation.derivative', [s.f['sum']], 'Real')), sel(s.f['weights'].el, i)))))
        unchanged(ex, 'backOutput', o, s, but=('errors', 'weights'))
        return ex
    return u
def gru(P):
    ex = Ctx(P, 'GatedRecurrentUnit'); o = ex.obj('gru', 'GatedRecurrentUnit'); s = ex.read(o)
    n = s.f['numberOfInputs']; err = V('error', 'Real'); ex.req(le(I(1), n))
    G = ('resetGate', 'updateGate', 'outputGate'); cnt = {g: ex.newroot('ghost:' + g, I(0)) for g in G}; got = {}
    for g in G: ex.req(eq(s.f[g].f['errors'].len, n))
    def back(e, fn, this, a, nd):
        if this.root != o.root or len(this.path) != 1: raise Unsupported('backOutput of another object')
        g = this.path[0][1]; e.write(cnt[g], add(e.read(cnt[g]), I(1))); got[g] = e.val(a[0])
        e.write(this.f('errors'), Ve(n, lam(lambda i: app('errors of ' + g, [i], 'Real'))))
        return this.f('errors')
    ex.contracts['RecurrentNeuron::backOutput'] = back
    r = ex.go(byparams(P, 'GatedRecurrentUnit::backOutput', 1), o, (err,)); t = ex.read(r)
    ex.post('the error of an input is the sum of what the gates return for it', and_(eq(t.len, n), allin(n, lambda i: eq(sel(t.el, i), add(*[app('errors of ' + g, [i], 'Real') for g in G])))))
    for g in G: ex.post('the %s gets one error' % g, eq(ex.read(cnt[g]), I(1)))
    ex.post('the candidate gets the error times the update gate', eq(got['outputGate'], mul(err, s.f['updateGateOutput'])))
    return ex
def layer(cls, ncls):
    """dense, recurrent and gated layers"""
    def u(P):
        exs = []
        for name, call in (('computeBackOutput', 'backOutput'), ('computeTrain', 'train')):
            ex = Ctx(P, name); exs.append(ex)
            o = ex.obj('layer', cls); v = ex.obj('errors', ('vec', ('real',))); s, t = ex.read(o), ex.read(v)
            N, nI = s.f['neurons'].len, s.f['numberOfInputs']
            ex.req(eq(t.len, N), le(I(0), nI)); ex.req(allin(N, lambda k: eq(sel(s.f['neurons'].el.f['errors'].len, k), nI)))
            calls = ex.newroot('ghost:calls', Ve(N, lam(lambda k: I(0))))
            def back(e, fn, this, a, n, o=o, calls=calls, N=N, t=t, nI=nI):
                if not (this.root == o.root and len(this.path) == 2 and this.path[0] == ('f', 'neurons')): raise Unsupported('backOutput of another object')
                k = this.path[1][1]; c = calls.i(k)
                e.oblig('post', 'every neuron gets its own error, once', and_(inr(I(0), k, N), eq(e.read(c), I(0)), eq(e.val(a[0]), sel(t.el, k))), n)
                e.write(c, add(e.read(c), I(1)))
                if fn.name == 'train': return None
                e.write(this.f('errors'), Ve(nI, lam(lambda i: app('back', [k, i], 'Real'))))
                return this.f('errors')
            ex.contracts['%s::%s' % (ncls, call)] = back
            r = ex.go(virtual(P, cls, name), o, (v,))
            ex.post('%s: every neuron works once' % name, allin(N, lambda k: eq(sel(ex.read(calls).el, k), I(1))))
            if name == 'computeBackOutput':
                ex.post('one error per input', eq(r.len, nI))
                ex.post('the error of an input is the sum over all neurons', allin(nI, lambda i: eq(sel(r.el, i), sum_(N, lambda k: app('back', [k, i], 'Real')))))
            unchanged(ex, name, o, s, but=('neurons',))
        return exs
    return u
FILTER = {'Convolution1D': True, 'Convolution2D': True, 'LocallyConnected1D': False, 'LocallyConnected2D': False}
def filt(cls):
    """the cells a window reads (kernelIndexes; which they are: C03) are the cells its errors go to"""
    shared = FILTER[cls]
    def u(P):
        exs = []
        for name, call in (('computeBackOutput', 'backOutput'), ('computeTrain', 'train')):
            ex = Ctx(P, name); exs.append(ex)
            o = ex.obj('layer', cls); v = ex.obj('errors', ('vec', ('real',)))
            # known finding C06-lc1d-window-of-error: with more than one filter the errors of LocallyConnected1D go to another window
            if cls == 'LocallyConnected1D' and name == 'computeBackOutput': ex.write(o.f('numberOfFilters'), I(1))
            s, t = ex.read(o), ex.read(v)
            N, nI, ki, F, S = s.f['neurons'].len, s.f['numberOfInputs'], s.f['kernelIndexes'], s.f['numberOfFilters'], s.f['sizeOfNeuronInputs']
            K = ki.len; idx = lambda k, e: sel(sel(ki.el.el, k), e)
            # invariants of a filter layer (established by its construction: C03)
            sizes = [le(I(1), F), le(I(1), K), le(I(1), S), le(I(0), nI), eq(s.f['numberOfKernelsPerFilter'], K), eq(s.f['numberOfKernels'], mul(K, F)), eq(t.len, mul(K, F)), eq(N, F if shared else mul(K, F))]
            ex.req(*sizes)
            ex.req(allin(K, lambda k: eq(sel(ki.el.len, k), S)), allin(N, lambda n: eq(sel(s.f['neurons'].el.f['errors'].len, n), S)))
            ex.req(allin2(K, S, lambda k, e: and_(le(I(0) if shared else I(-1), idx(k, e)), lt(idx(k, e), nI))))
            calls = ex.newroot('ghost:calls', Ve(N, lam(lambda k: I(0))))
            def back(e, fn, this, a, n, o=o, calls=calls, N=N, t=t, F=F, S=S):
                if not (this.root == o.root and len(this.path) == 2 and this.path[0] == ('f', 'neurons')): raise Unsupported('backOutput of another object')
                f = this.path[1][1]; c = calls.i(f); k = e.read(c)
                e.oblig('post', 'call k of a neuron consumes the error of its output k' if shared else 'every neuron consumes the error of its output, once', and_(inr(I(0), f, N), eq(e.val(a[0]), sel(t.el, add(mul(k, F), f)) if shared else sel(t.el, f)), *([] if shared else [eq(k, I(0))])), n)
                e.write(c, add(k, I(1)))
                if fn.name == 'train': return None
                e.write(this.f('errors'), Ve(S, lam(lambda i: app('back', [k, f, i], 'Real') if shared else app('back', [f, i], 'Real'))))
                return this.f('errors')
            ex.contracts['SimpleNeuron::' + call] = back
            r = ex.go(virtual(P, cls, name), o, (v,))
            ex.post('%s: every output error is consumed' % name, allin(N, lambda k: eq(sel(ex.read(calls).el, k), K if shared else I(1))))
            if name == 'computeBackOutput':
                ex.post('one error per input', eq(r.len, nI))
                if shared: g = lambda i: sum_(K, lambda k: sum_(F, lambda f: sum_(S, lambda e: ite(eq(idx(k, e), i), app('back', [k, f, e], 'Real'), R(0)))))
                else: g = lambda i: sum_(N, lambda n: sum_(S, lambda e: ite(le(I(0), idx(tdiv(n, F), e)), ite(eq(idx(tdiv(n, F), e), i), app('back', [n, e], 'Real'), R(0)), R(0))))
                ex.post('the error of a cell is the sum over exactly the windows that read it', allin(nI, lambda i: eq(sel(r.el, i), g(i))), sizes if not shared else None)
            unchanged(ex, name, o, s, but=('neurons',))
        return exs
    return u
def network(P):
    ex = Ctx(P, 'backpropagationAlgorithm')
    o = ex.obj('network', 'NeuralNetwork'); v = ex.obj('inputs', ('vec', ('real',))); d = ex.obj('desired', ('vec', ('real',))); s = ex.read(o)
    L = s.f['layers']; n = L.len; nO = V('numberOfOutputs'); reset = V('reset', 'Bool')
    out = ex.read(ex.obj('outputs', ('vec', ('real',)))); ex.req(le(I(1), n), eq(out.len, nO), eq(ex.read(d).len, nO), not_(s.f['outputNan']))
    ex.contracts['NeuralNetwork::getNumberOfOutputs'] = lambda *a: nO
    step = ex.newroot('ghost:step', n); trained = ex.newroot('ghost:trained', I(0))
    # errors(k): what arrives at layer k-1
    el = lambda k: app('errors.len', [k], 'Int'); now = lambda x, k: and_(eq(x.len, el(k)), allin(el(k), lambda i: eq(sel(x.el, i), app('errors', [k, i], 'Real'))))
    ex.facts.append(forall(['Int'], lambda k: le(I(0), el(k))))
    des = ex.read(d)
    ex.req(eq(el(n), nO), allin(nO, lambda i: eq(app('errors', [n, i], 'Real'), mul(R(2), sub(sel(des.el, i), sel(out.el, i))))))
    fwd = ex.newroot('ghost:forward', I(0))
    def forward(e, fn, this, a, nd):
        e.oblig('post', 'the training pass works on the inputs of the datum', and_(treeeq(e.read(a[0]), e.read(v)), eq(e.val(a[1]), reset), eq(e.read(fwd), I(0))), nd)
        e.write(fwd, I(1)); return out
    ex.contracts['NeuralNetwork::outputForTraining'] = forward
    def back(e, fn, lv, a, nd):
        k = e.read(step)
        e.oblig('post', 'layer k gets the errors the layer after it returned', and_(eq(e.read(lv), sel(L.el, sub(k, I(1)))), now(e.read(a[0]), k), eq(e.read(trained), I(0)), eq(e.read(fwd), I(1))), nd)
        e.write(step, sub(k, I(1)))
        if fn.name == 'train': e.write(trained, I(1)); return None
        return Ve(el(sub(k, I(1))), lam(lambda i: app('errors', [sub(k, I(1)), i], 'Real')))
    ex.contracts['obj:backOutput'] = ex.contracts['obj:train'] = back
    ex.go(byparams(P, 'NeuralNetwork::backpropagationAlgorithm', 3), o, (v, d, reset))
    ex.post('every layer was trained once', and_(eq(ex.read(step), I(0)), eq(ex.read(trained), I(1))))
    unchanged(ex, 'backpropagation', o, s)
    return ex
UNITS = [('simple neuron', neuron('SimpleNeuron')), ('recurrent neuron', neuron('RecurrentNeuron')), ('gated unit', gru), ('dense layer', layer('FullyConnected', 'SimpleNeuron')), ('recurrent layer', layer('Recurrence', 'RecurrentNeuron')), ('gated layer', layer('GruLayer', 'GatedRecurrentUnit'))]
UNITS += [(c, filt(c)) for c in FILTER] + [('network', network)]
