from .common import *
from .c27 import virtual
from . import c03
ASSUME = ['sizes fit in the integer types that hold them; memory is not exhausted']
DENSE = {'FullyConnected': 'fullyConnected', 'Recurrence': 'recurrence', 'GruLayer': 'gruLayer'}
FILTER = {'MaxPooling': 'maxPooling', 'LocallyConnected': 'locallyConnected', 'Convolution': 'convolution'}
CLS = list(DENSE) + [f + d for f in FILTER for d in ('1D', '2D')]
LIMIT = 1000000
def enum(P, e, v): return I(P.enums[(e, v)])
def contracts(ex):
    """what the constructors of layers call: random numbers (any value between the limits given), activation functions (C26), layer optimizers (C27)"""
    c = ex.newroot('ghost:random', I(0))
    def draw(e, fn, this, args, n):
        # weight(): proved for Neuron::randomInitializeWeight
        e.oblig('post', 'a neuron has weights', le(I(1), e.val(args[0])), n)
        k = e.read(c); e.write(c, add(k, I(1)))
        return app('random', [k], 'Real')
    ex.facts.append(forall(['Int'], lambda k: and_(le(R(-3), app('random', [k], 'Real')), le(app('random', [k], 'Real'), R(3)))))
    ex.contracts['Neuron::randomInitializeWeight'] = draw
    activations(ex)
    ex.contracts['ActivationFunction::get'] = lambda e, fn, this, a, n: app('activation of kind', [e.val(a[0])], 'Ref')
    ex.contracts['LayerOptimizerFactory::build'] = lambda *a: None
def weight(P):
    """the first weights are small"""
    ex = Ctx(P, 'first weight')
    n = V('numberOfWeights'); ex.req(le(I(1), n))
    def between(e, fn, this, a, nd):
        # Tools: a value between the limits
        lo, hi = e.val(a[0]), e.val(a[1]); r = V('drawn', 'Real')
        e.oblig('post', 'the limits are in order', le(lo, hi), nd); e.assume(and_(le(lo, r), le(r, hi)))
        return r
    ex.contracts['randomBetween'] = ex.contracts['tools::randomBetween'] = ex.contracts['*::randomBetween'] = between
    ex.contracts['std:sqrtf'] = ex.contracts['std:sqrt'] = root
    r = ex.go(byparams(P, 'Neuron::randomInitializeWeight', 1), None, (n,))
    ex.post('the first weights are between -3 and 3', and_(le(R(-3), r), le(r, R(3))))
    return ex
def root(e, a, n):
    """square root: not negative, its square is the argument"""
    x = e.castto(e.rv(a[0]), ('real',), None)
    r = app('sqrt', [x], 'Real')
    e.assume(implies(le(R(0), x), and_(le(R(0), r), eq(mul(r, r), x))))
    return r
def shape(cls, sh):
    """channels and sizes of the input of a filter layer"""
    C, X, Y = [sel(sh.el, I(i)) for i in range(3)]
    return C, X, (Y if cls.endswith('2D') else None)
def windows(cls, x, k):
    if cls.startswith('Conv'): return add(sub(x, k), I(1))
    return add(tdiv(x, k), ite(eq(tmod(x, k), I(0)), I(0), I(1)))
def numbers(cls, t):
    """from a layer model: number of neurons, weights of a neuron (or of a gate), shape of the output, number of outputs"""
    nI = t.f['numberOfInputs']
    if cls in DENSE:
        return t.f['numberOfNeurons'], add(nI, I(1 if cls == 'FullyConnected' else 2)), [t.f['numberOfNeurons']]
    C, X, Y = shape(cls, t.f['shapeOfInput']); k, F = t.f['kernelSize'], t.f['numberOfFilters']
    pos = [windows(cls, X, k)] + ([windows(cls, Y, k)] if Y is not None else [])
    S = prod(k, k, C) if Y is not None else mul(k, C)
    if cls.startswith('Max'): return I(0), None, [C] + pos
    return (F if cls.startswith('Conv') else prod(F, *pos)), add(S, I(1)), [F] + pos
def pre(cls, t):
    """what the factory hands to the constructor of class cls; [(name, term)]"""
    nI, ne_ = t.f['numberOfInputs'], t.f['neuron']; N, W, out = numbers(cls, t)
    q = [('inputs', le(I(1), nI)), ('neurons', eq(t.f['numberOfNeurons'], N) if cls not in DENSE else le(I(0), N))]
    if cls in DENSE: return q + [('inputs of a neuron', eq(ne_.f['numberOfInputs'], nI)), ('weights of a neuron', eq(ne_.f['numberOfWeights'], W)), ('batch', eq(ne_.f['batchSize'], I(1)))]
    C, X, Y = shape(cls, t.f['shapeOfInput']); k, F = t.f['kernelSize'], t.f['numberOfFilters']
    q += [('dimensions', eq(t.f['shapeOfInput'].len, I(2 if Y is None else 3))), ('channels', le(I(1), C)), ('kernel', and_(le(I(1), k), le(k, X), *([le(k, Y)] if Y is not None else []))), ('number of inputs', eq(nI, prod(C, X, *([Y] if Y is not None else []))))]
    if cls.startswith('Max'): return q + [('outputs', and_(eq(t.f['numberOfOutputs'], prod(*out)), eq(t.f['numberOfKernels'], prod(*out))))]
    K = prod(*out[1:])
    return q + [('filters', le(I(1), F)), ('positions', eq(t.f['numberOfKernelsPerFilter'], K)), ('kernels', eq(t.f['numberOfKernels'], mul(K, F))), ('inputs of a neuron', eq(add(ne_.f['numberOfInputs'], I(1)), W)), ('weights of a neuron', eq(ne_.f['numberOfWeights'], W)),
                ('batch', eq(ne_.f['batchSize'], K) if cls.startswith('Conv') else eq(ne_.f['batchSize'], I(1)))]
def ctor(P, cls): return byparams(P, '%s::%s' % (cls, cls), 1 if cls.startswith('Max') else 2, 'LayerModel')
def gates(cls): return ['resetGate', 'updateGate', 'outputGate'] if cls == 'GruLayer' else [None]
def built(cls):
    """a layer made by its constructor from what the factory prepares"""
    def u(P):
        ex = Ctx(P, cls)
        m = ex.obj('model', 'LayerModel')
        if cls.startswith('Max'): ex.write(m.f('numberOfNeurons'), I(0))
        t = ex.read(m)
        ex.req(*[x for _, x in pre(cls, t)])
        contracts(ex)
        full = next(c for c in P.classes if c.split('::')[-1] == cls)
        lv = ex.newroot('layer', ex.rawobj(full))
        ex.go(ctor(P, cls), lv, (m,) if cls.startswith('Max') else (m, V('optimizer', 'Ref')), ctor=True)
        s = ex.read(lv); N, W, out = numbers(cls, t)
        ex.post('number of inputs', eq(s.f['numberOfInputs'], t.f['numberOfInputs']))
        ex.post('number of neurons', eq(s.f['neurons'].len, N))
        el = s.f['neurons'].el
        if W is not None:
            for g in gates(cls):
                w = el.f[g].f['weights'] if g else el.f['weights']
                ex.post('weights of a neuron' + (' (%s)' % g if g else ''), allin(N, lambda i: eq(sel(w.len, i), W)))
                a = el.f[g].f['activationFunction'] if g else el.f['activationFunction']
                if g is None: ex.post('activation of the neurons', allin(N, lambda i: eq(sel(a, i), t.f['neuron'].f['activationFunction'])))
        # what a pass through the layer needs and returns (C03, C04, C05)
        if cls not in DENSE:
            ki = s.f['kernelIndexes']
            if not cls.startswith('Max'):
                ex.post('outputs: positions times filters', and_(eq(s.f['numberOfFilters'], t.f['numberOfFilters']), eq(s.f['numberOfKernels'], mul(ki.len, s.f['numberOfFilters'])), eq(add(s.f['sizeOfNeuronInputs'], I(1)), W)))
                real = mul(ki.len, s.f['numberOfFilters'])
            else:
                ex.post('outputs: one per window', and_(eq(s.f['numberOfKernels'], ki.len), eq(s.f['maxValueIndexes'].len, ki.len)))
                real = ki.len
        else: real = s.f['neurons'].len
        r = ex.go(virtual(P, cls, 'getShapeOfOutput'), lv, ())
        ex.post('dimensions of the output', eq(r.len, I(len(out))))
        for i, x in enumerate(out): ex.post('announced size %d' % i, eq(sel(r.el, I(i)), x))
        ex.post('the product of the announced sizes is the number of values the layer returns', eq(prod(*[sel(r.el, I(i)) for i in range(len(out))]), real))
        r = ex.go(virtual(P, cls, 'getNumberOfInputs'), lv, ())
        ex.post('announced inputs', eq(r, t.f['numberOfInputs']))
        r = ex.go(virtual(P, cls, 'getShapeOfInput'), lv, ())
        if cls in DENSE: ex.post('announced shape of the input', and_(eq(r.len, I(1)), eq(sel(r.el, I(0)), t.f['numberOfInputs'])))
        else: ex.post('announced shape of the input', and_(eq(r.len, t.f['shapeOfInput'].len), *[eq(sel(r.el, I(i)), sel(t.f['shapeOfInput'].el, I(i))) for i in range(3 if cls.endswith('2D') else 2)]))
        r = ex.go(virtual(P, cls, 'getNumberOfNeurons'), lv, ())
        ex.post('announced neurons', eq(r, N))
        r = ex.go(virtual(P, cls, 'getNumberOfParameters'), lv, ())
        ex.post('announced parameters: those of all neurons', eq(r, prod(N, W, I(len(gates(cls)))) if W is not None else I(0)))
        unchanged(ex, 'asking', lv, s)
        return ex
    return u
def network(ex, P):
    """a network whose layers are arbitrary objects"""
    o = ex.obj('network', 'NeuralNetwork'); s = ex.read(o)
    L = s.f['layers']; n = L.len
    ex.req(le(I(1), n))
    ask = lambda nm: (lambda i: app('layer.' + nm, [sel(L.el, i)], 'Int'))
    for nm in ('getNumberOfInputs', 'getNumberOfNeurons', 'getNumberOfParameters'):
        ex.contracts['obj:' + nm] = (lambda nm: lambda e, f, lv, a, nd: app('layer.' + nm, [e.read(lv)], 'Int'))(nm)
    ex.contracts['obj:getShapeOfOutput'] = lambda e, f, lv, a, nd: Ve(app('shape.len', [e.read(lv)], 'Int'), app('shape.el', [e.read(lv)], ('A', 'Int')))
    return o, s, L, n, ask
def getters(P):
    exs = []
    def start(nm):
        ex = Ctx(P, nm); exs.append(ex)
        return (ex,) + network(ex, P)
    ex, o, s, L, n, ask = start('getNumberOfInputs')
    ex.post('the network has the inputs of its first layer', eq(ex.go(byparams(P, 'NeuralNetwork::getNumberOfInputs', 0), o, ()), ask('getNumberOfInputs')(I(0))))
    unchanged(ex, 'asking', o, s)
    for fn, nm in (('getNumberOfNeurons', 'neurons'), ('getNumberOfParameters', 'parameters')):
        ex, o, s, L, n, ask = start(fn)
        ex.post('the network has the %s of all its layers' % nm, eq(ex.go(byparams(P, 'NeuralNetwork::' + fn, 0), o, ()), sum_(n, ask(fn))))
        unchanged(ex, 'asking', o, s)
    ex, o, s, L, n, ask = start('getNumberOfLayers')
    ex.post('number of layers', eq(ex.go(byparams(P, 'NeuralNetwork::getNumberOfLayers', 0), o, ()), n))
    ex, o, s, L, n, ask = start('getNumberOfOutputs')
    last = sel(L.el, sub(n, I(1))); ln, el = app('shape.len', [last], 'Int'), app('shape.el', [last], ('A', 'Int'))
    p = lambda k: app('product', [k], 'Int')
    ex.req(le(I(0), ln), eq(p(I(0)), I(1)), forall(['Int'], lambda k: implies(le(I(0), k), eq(p(add(k, I(1))), mul(p(k), sel(el, k))))))
    ex.cands.append(lambda e, Lo: [('product so far', lambda tau, q=q: eq(Lo.at(q, tau), p(tau))) for q in Lo.unsolved])
    ex.post('the outputs are the product of the sizes of the last layer', eq(ex.go(byparams(P, 'NeuralNetwork::getNumberOfOutputs', 0), o, ()), p(ln)))
    unchanged(ex, 'asking', o, s)
    return exs
UNITS = [(c, built(c)) for c in CLS] + [('network', getters)]
