from .common import *
from . import c05, c27
ASSUME = ['inputs, weights and outputs are mathematical reals; rounding is not part of the property',
          'known defects (known_findings.txt): the last output of a recurrent neuron or gate survives a reset; everything else does not',
          'layers without recurrence are functions of inputs and weights (C03, C04, C05)']
def pair(ex, cls, same):
    """two objects of class cls that agree on the fields same and on nothing else"""
    a, b = ex.obj('a', cls), ex.obj('b', cls)
    ta, tb = ex.read(a), ex.read(b)
    for lv, t, f in ((b, tb, same),):
        x = dict(t.f)
        for n in f: x[n] = ta.f[n]
        ex.S.mem[lv.root] = St(t.cls, x)
    return a, b
KEPT = ('weights', 'bias', 'numberOfInputs', 'batchSize', 'optimizer', 'outputFunction', 'activationFunction')
def recurrent(reset):
    def u(P):
        ex = Ctx(P, 'recurrent neuron'); activations(ex)
        v = ex.obj('inputs', ('vec', ('real',))); t = ex.read(v)
        a, b = pair(ex, 'RecurrentNeuron', KEPT)
        s = ex.read(a)
        ex.req(eq(s.f['weights'].len, add(t.len, I(2))), eq(s.f['numberOfInputs'], t.len))
        for o in (a, b):
            li = ex.read(o).f['lastInputs']; ex.req(le(I(1), li.f['queue'].len), inr(I(0), li.f['indexPush'], add(li.f['queue'].len, I(1))))
        if reset: ex.req(eq(s.f['lastOutput'], ex.read(b).f['lastOutput']))      # known finding C09-recurrence-reset
        else: ex.req(eq(sel(s.f['weights'].el, t.len), R(0)))
        f = byparams(P, 'RecurrentNeuron::output', 2)
        k = TRUE if reset else V('reset', 'Bool')
        r1 = ex.go(f, a, (v, k)); r2 = ex.go(f, b, (v, k))
        ex.post('the output after a reset does not depend on the history' if reset else 'the output without recurrent weights does not depend on the history', eq(r1, r2))
        if reset: ex.post('so does what the next step starts from', eq(ex.read(a).f['lastOutput'], ex.read(b).f['lastOutput']))
        for o in (a, b):
            if reset: ex.post('a reset erases the recurrent error', eq(ex.read(o).f['recurrentError'], R(0)))
            ex.post('the weights stay', treeeq(ex.read(o).f['weights'], s.f['weights']))
        return ex
    return u
def gated(P):
    ex = Ctx(P, 'gated unit')
    v = ex.obj('inputs', ('vec', ('real',))); t = ex.read(v)
    a, b = pair(ex, 'GatedRecurrentUnit', ('numberOfInputs', 'resetGate', 'updateGate', 'outputGate'))    # the gates' last outputs: known finding C09-gru-reset
    def gate(e, fn, this, x, n):
        # contract of RecurrentNeuron::output (proved in the other unit): a function of weights, inputs and its last output
        if this.root not in (a.root, b.root) or len(this.path) != 1: raise Unsupported('output of another object')
        e.oblig('post', 'the gates get the inputs and the reset', and_(treeeq(e.read(x[0]), t), e.val(x[1])), n)
        r = app('out.' + this.path[0][1], [e.read(this.f('lastOutput'))], 'Real')
        e.write(this.f('lastOutput'), r)
        return r
    ex.contracts['RecurrentNeuron::output'] = gate
    f = byparams(P, 'GatedRecurrentUnit::output', 2)
    r1 = ex.go(f, a, (v, TRUE)); r2 = ex.go(f, b, (v, TRUE))
    ex.post('the output after a reset does not depend on the history', eq(r1, r2))
    x, y = ex.read(a), ex.read(b)
    ex.post('nor does what the next step starts from', and_(eq(x.f['previousOutput'], y.f['previousOutput']), *[eq(x.f[g].f['lastOutput'], y.f[g].f['lastOutput']) for g in ('resetGate', 'updateGate', 'outputGate')]))
    ex.post('a reset erases the recurrent error', and_(eq(x.f['recurrentError'], R(0)), eq(y.f['recurrentError'], R(0))))
    return ex
def front(P):
    """the reset a user asks for reaches the layers"""
    ex = Ctx(P, 'computeOutput')
    o = ex.obj('network', 'StraightforwardNeuralNetwork'); v = ex.obj('inputs', ('vec', ('real',))); s, t = ex.read(o), ex.read(v); k = V('reset', 'Bool')
    res = ex.read(ex.obj('outputs', ('vec', ('real',))))
    def out(e, fn, this, a, n):
        e.oblig('post', 'inputs and reset are handed on', and_(treeeq(e.read(a[0]), t), eq(e.val(a[1]), k)), n)
        return res
    ex.contracts['NeuralNetwork::output'] = out
    r = ex.go(byparams(P, 'StraightforwardNeuralNetwork::computeOutput', 2), o, (v, k))
    ex.post('the outputs are handed back', treeeq(ex.val(r), res))
    unchanged(ex, 'computeOutput', o, s)
    return ex
UNITS = [('recurrent neuron after a reset', recurrent(True)), ('recurrent neuron without recurrent weights', recurrent(False)), ('gated unit after a reset', gated), ('network: computeOutput', front)] + \
        [('network: layers', c05.network), ('recurrent layer', c05.layer('Recurrence', 'RecurrentNeuron')), ('gated layer', c05.layer('GruLayer', 'GatedRecurrentUnit')), ('dense layer', c05.layer('FullyConnected', 'SimpleNeuron')), ('simple neuron', c05.neuron('SimpleNeuron'))] + \
        [('%s and its optimizers' % c, c27.apply(c)) for c in ('Recurrence', 'GruLayer')]
