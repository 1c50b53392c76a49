from .common import *
from .c27 import virtual
ASSUME = ['inputs, weights and outputs are mathematical reals; rounding is not part of the property']
def act(x): return app('activation.function', [x], 'Real')
def neuron(cls):
    def u(P):
        ex = Ctx(P, cls)
        o = ex.obj('neuron', cls); v = ex.obj('inputs', ('vec', ('real',))); s, t = ex.read(o), ex.read(v)
        rec = cls == 'RecurrentNeuron'
        ex.req(eq(s.f['weights'].len, add(t.len, I(2 if rec else 1))), eq(s.f['numberOfInputs'], t.len)); activations(ex)
        li = s.f['lastInputs']; ex.req(le(I(1), li.f['queue'].len), inr(I(0), li.f['indexPush'], add(li.f['queue'].len, I(1))))
        r = ex.go(byparams(P, cls + '::output', 2 if rec else 1), o, (v, V('reset', 'Bool')) if rec else (v,))
        w = s.f['weights'].el
        x = sum_(t.len, lambda i: mul(sel(t.el, i), sel(w, i)))
        if rec: x = add(x, mul(s.f['lastOutput'], sel(w, t.len)), mul(s.f['bias'], sel(w, add(t.len, I(1)))))
        else: x = add(x, mul(s.f['bias'], sel(w, t.len)))
        n = ex.read(o)
        ex.post('the output is the activation of the weighted sum', eq(r, act(x)))
        ex.post('the sum is kept for backpropagation', eq(n.f['sum'], x))
        ex.post('the inputs are left alone', treeeq(ex.read(v), t))
        if rec: ex.post('the output is the previous output of the next step', eq(n.f['lastOutput'], r)); ex.post('the previous output that was used is kept', eq(n.f['previousOutput'], s.f['lastOutput']))
        unchanged(ex, 'output', o, s, fields=('weights', 'bias', 'previousDeltaWeights', 'errors', 'numberOfInputs', 'batchSize', 'optimizer', 'outputFunction', 'activationFunction'))
        return ex
    return u
def gru(P):
    ex = Ctx(P, 'GatedRecurrentUnit'); o = ex.obj('gru', 'GatedRecurrentUnit'); v = ex.obj('inputs', ('vec', ('real',))); s, t = ex.read(o), ex.read(v)
    reset = V('reset', 'Bool')
    cnt = {g: ex.newroot('ghost:' + g, I(0)) for g in ('resetGate', 'updateGate', 'outputGate')}
    out = lambda g, last: app('out.' + g, [last], 'Real')
    def gate(e, fn, this, a, n):
        # contract of RecurrentNeuron::output (proved in its own unit): a function of weights, inputs and its last output
        if this.root != o.root or len(this.path) != 1: raise Unsupported('output of another object')
        g = this.path[0][1]
        e.oblig('post', 'the %s gets the inputs and the reset' % g, and_(treeeq(e.read(a[0]), t), eq(e.val(a[1]), reset)), n)
        e.write(cnt[g], add(e.read(cnt[g]), I(1)))
        r = out(g, e.read(this.f('lastOutput')))
        e.write(this.f('lastOutput'), r)
        return r
    ex.contracts['RecurrentNeuron::output'] = gate
    r = ex.go(byparams(P, 'GatedRecurrentUnit::output', 2), o, (v, reset))
    last = lambda g: s.f[g].f['lastOutput']
    z, rg = out('updateGate', last('updateGate')), out('resetGate', last('resetGate'))
    c = out('outputGate', mul(last('outputGate'), rg))
    prev = ite(reset, R(0), s.f['previousOutput'])
    ex.post('the update gate mixes the stored previous output and the candidate', eq(r, add(mul(sub(R(1), z), prev), mul(z, c))))
    for g in cnt: ex.post('the %s works once' % g, eq(ex.read(cnt[g]), I(1)))
    n = ex.read(o)
    ex.post('all gates see the output as their previous output in the next step', and_(*[eq(n.f[g].f['lastOutput'], r) for g in cnt]))
    ex.post('the gates are kept for backpropagation', and_(eq(n.f['updateGateOutput'], z), eq(n.f['outputGateOutput'], c)))
    for g in cnt: ex.post('the weights of the %s stay' % g, treeeq(n.f[g].f['weights'], s.f[g].f['weights']))
    ex.post('the inputs are left alone', treeeq(ex.read(v), t))
    # what kind of neuron the gates are
    ex2 = Ctx(P, 'gates'); m = ex2.obj('model', 'NeuronModel'); randoms(ex2, '*::randomInitializeWeight'); activations(ex2)
    mt = ex2.read(m); ex2.req(le(I(1), mt.f['batchSize']), le(I(0), mt.f['numberOfInputs']), le(I(1), mt.f['numberOfWeights']))
    ex2.contracts['ActivationFunction::get'] = lambda e, fn, this, a, n: app('activation of kind', [e.val(a[0])], 'Ref')
    g = ex2.create('gru', 'snn::internal::GatedRecurrentUnit' if 'snn::internal::GatedRecurrentUnit' in P.classes else next(c for c in P.classes if c.split('::')[-1] == 'GatedRecurrentUnit'), byparams(P, 'GatedRecurrentUnit::GatedRecurrentUnit', 2), (mt, fresh('optimizer', 'Ref')))
    for nm, k in (('resetGate', 'sigmoid'), ('updateGate', 'sigmoid'), ('outputGate', 'tanh')):
        ex2.post('activation of the %s' % nm, eq(ex2.read(g).f[nm].f['outputFunction'], app('activation of kind', [I(P.enums[('activation', k)])], 'Ref')))
    return [ex, ex2]
def layer(cls, ncls):
    def u(P):
        ex = Ctx(P, cls); o = ex.obj('layer', cls); v = ex.obj('inputs', ('vec', ('real',))); s, t = ex.read(o), ex.read(v)
        N = s.f['neurons'].len; reset = V('reset', 'Bool')
        calls = ex.newroot('ghost:calls', Ve(N, lam(lambda k: I(0))))
        def out(e, fn, this, a, n):
            if not (this.root == o.root and len(this.path) == 2 and this.path[0] == ('f', 'neurons')): raise Unsupported('output of another object')
            k = this.path[1][1]; c = calls.i(k)
            e.oblig('post', 'a neuron of the layer that has not worked in this pass', and_(inr(I(0), k, N), eq(e.read(c), I(0))), n)
            e.oblig('post', 'every neuron gets the inputs of the layer', treeeq(e.read(a[0]), t), n)
            if len(a) > 1: e.oblig('post', 'every neuron is told about the reset', eq(e.val(a[1]), reset), n)
            elif ncls != 'SimpleNeuron': e.oblig('post', 'every neuron is told about the reset', FALSE, n)
            e.write(c, add(e.read(c), I(1)))
            return app('output of neuron', [k], 'Real')
        ex.contracts[ncls + '::output'] = out
        r = ex.go(virtual(P, cls, 'computeOutput'), o, (v, reset))
        ex.post('one output per neuron', eq(r.len, N))
        ex.post('the outputs are those of the neurons, in order', allin(N, lambda k: eq(sel(r.el, k), app('output of neuron', [k], 'Real'))))
        ex.post('every neuron works once', allin(N, lambda k: eq(sel(ex.read(calls).el, k), I(1))))
        ex.post('the inputs are left alone', treeeq(ex.read(v), t))
        unchanged(ex, 'computeOutput', o, s)
        return ex
    return u
def network(P):
    """every layer gets the outputs of the layer before it"""
    exs = []
    for name in ('output', 'outputForTraining'):
        ex = Ctx(P, name); exs.append(ex)
        o = ex.obj('network', 'NeuralNetwork'); v = ex.obj('inputs', ('vec', ('real',))); s, t = ex.read(o), ex.read(v)
        n = s.f['layers'].len; reset = V('reset', 'Bool'); ex.req(le(I(1), n))
        step = ex.newroot('ghost:step', I(0))
        vl = lambda k: app('values.len', [k], 'Int'); now = lambda x, k: and_(eq(x.len, vl(k)), allin(vl(k), lambda i: eq(sel(x.el, i), app('values', [k, i], 'Real'))))
        ex.facts.append(forall(['Int'], lambda k: le(I(0), vl(k))))
        ex.req(now(t, I(0)))
        def out(e, fn, lv, a, nd, step=step, s=s, now=now):
            k = e.read(step)
            e.oblig('post', 'layer k works on what the layer before it returned', and_(eq(e.read(lv), sel(s.f['layers'].el, k)), now(e.read(a[0]), k), eq(e.val(a[1]), reset)), nd)
            e.write(step, add(k, I(1)))
            return Ve(vl(add(k, I(1))), lam(lambda i: app('values', [add(k, I(1)), i], 'Real')))
        ex.contracts['obj:' + name] = out
        r = ex.go(byparams(P, 'NeuralNetwork::' + name, 2), o, (v, reset))
        ex.post('every layer works once', eq(ex.read(step), n))
        ex.post('the network returns what its last layer returned', now(r, n))
        ex.post('the inputs are left alone', treeeq(ex.read(v), t))
        unchanged(ex, name, o, s, but=('outputNan',))
    return exs
def getname(P): pass
UNITS = [('simple neuron', neuron('SimpleNeuron')), ('recurrent neuron', neuron('RecurrentNeuron')), ('gated unit', gru), ('dense layer', layer('FullyConnected', 'SimpleNeuron')), ('recurrent layer', layer('Recurrence', 'RecurrentNeuron')), ('gated layer', layer('GruLayer', 'GatedRecurrentUnit')), ('network', network)]
