from .common import *
from .c27 import LAYERS, virtual
ASSUME = ['weights and values are mathematical reals (no not-a-number)', 'hash codes of different types are different', 'activation and output functions of neurons are compared by identity']
OPTIMIZERS = {'Dropout': ('value',), 'L1Regularization': ('value',), 'L2Regularization': ('value',), 'ErrorMultiplier': ('factor',), 'Softmax': ()}
NEURONS = {'SimpleNeuron': (), 'RecurrentNeuron': (), 'GatedRecurrentUnit': ()}
GATES = ('resetGate', 'updateGate', 'outputGate')
def concrete(P, base):
    """classes of the program below base that objects can have"""
    return sorted(c for c in P.classes if P.is_base(base, c) and not P.classes[c].node.get('definitionData', {}).get('isAbstract'))
def sameobj(x, y):
    # any relation that is reflexive and symmetric: what equality of the owned objects is proved to be in the other units
    s = lambda a, b: app('same', [a, b], 'Bool')
    return or_(eq(x, y), and_(s(x, y), s(y, x)))
def equality(ex):
    """contracts of the virtual equality of owned objects"""
    def rd(e, a):
        if isinstance(a, tuple) and a[0] == 'ref': return a[1]
        return e.val(a)
    for nm, neg_ in (('operator==', False), ('operator!=', True)):
        def f(e, fn, lv, args, n, neg_=neg_):
            r = sameobj(rd(e, lv), rd(e, args[0]))
            return not_(r) if neg_ else r
        for p in ('obj:', ): ex.contracts[p + nm] = f
        def g(e, fn, ref, args, n, neg_=neg_):
            r = sameobj(ref, rd(e, args[0]))
            return not_(r) if neg_ else r
        ex.contracts['ref:' + nm] = g
def compare(P, name, A, B, see):
    """equality of an object of class A with one of class B; see(a, b): what equal objects have in common"""
    ex = Ctx(P, name); equality(ex)
    a = ex.obj('a', A); b = ex.obj('b', B)
    ta, tb = ex.read(a), ex.read(b)
    s0 = ex.S
    def op(x, y, cx, nm='operator=='):
        r = ex.go(virtual(P, cx, nm), x, (y,))
        return ex.val(r)
    def unch(what):
        ex.post('%s changes nothing' % what, and_(treeeq(ex.read(a), ta), treeeq(ex.read(b), tb)))
    ab = op(a, b, A)
    unch('a == b')
    ba = op(b, a, B)
    ex.post('a == b exactly if b == a', iff_(ab, ba))
    ex.post('a != b exactly if not a == b', iff_(op(a, b, A, 'operator!='), not_(ab)))
    unch('a != b')
    if A == B:
        ex.post('a == a', op(a, a, A))
        ex.post('not a != a', not_(op(a, a, A, 'operator!=')))
        s = ex.S
        ex.S = s.fork(ab)
        for nm, t in see(ta, tb): ex.post('equal objects have equal %s' % nm, t)
        ex.S = s
    else: ex.post('objects of different kinds are different', not_(ab))
    return ex
def iff_(a, b): return and_(implies(a, b), implies(b, a))
def optimizer(base):
    def u(P):
        exs = []
        cs = concrete(P, base)
        for A in cs:
            for B_ in cs:
                f = OPTIMIZERS.get(A, ('learningRate', 'momentum') if base == 'NeuralNetworkOptimizer' else ())
                exs.append(compare(P, '%s and %s' % (A, B_), A, B_, lambda a, b: [(n, eq(a.f[n], b.f[n])) for n in f]))
        return exs
    return u
def neuronsee(cls):
    one = lambda a, b, w: [(w + 'weights', samevec(a.f['weights'], b.f['weights'])), (w + 'bias', eq(a.f['bias'], b.f['bias'])), (w + 'optimizer', sameobj(a.f['optimizer'], b.f['optimizer']))]
    if cls == 'GatedRecurrentUnit':
        return lambda a, b: sum((one(a.f[g], b.f[g], g + ' ') for g in GATES), []) + [('number of inputs', eq(a.f['numberOfInputs'], b.f['numberOfInputs']))]
    return lambda a, b: one(a, b, '') + [('number of inputs', eq(a.f['numberOfInputs'], b.f['numberOfInputs']))]
def neuron(cls):
    return lambda P: compare(P, cls, cls, cls, neuronsee(cls))
def layersee(cls):
    def see(a, b):
        out = []
        if cls.startswith('MaxPooling'):    # no neurons and no optimizers; its other sizes follow from these
            return [('kernelSize', eq(a.f['kernelSize'], b.f['kernelSize'])), ('shapeOfInput', samevec(a.f['shapeOfInput'], b.f['shapeOfInput']))]
        if 'neurons' in a.f:
            x, y = a.f['neurons'], b.f['neurons']
            out.append(('number of neurons', eq(x.len, y.len)))
            out.append(('number of inputs', eq(a.f['numberOfInputs'], b.f['numberOfInputs'])))
            at = lambda t, i: tsel(t.el, i)
            for k, (nm, _) in enumerate(neuronsee(x.el.cls)(at(x, I(0)), at(y, I(0)))):
                out.append((nm + ' of every neuron', allin(x.len, lambda i, k=k: neuronsee(x.el.cls)(at(x, i), at(y, i))[k][1])))
        if 'optimizers' in a.f:
            x, y = a.f['optimizers'], b.f['optimizers']
            out.append(('number of optimizers', eq(x.len, y.len)))
            out.append(('optimizers', allin(x.len, lambda i: sameobj(sel(x.el, i), sel(y.el, i)))))
        for n in ('kernelSize', 'numberOfFilters', 'numberOfKernels', 'numberOfKernelsPerFilter', 'numberOfNeuronsPerFilter', 'sizeOfNeuronInputs'):
            if n in a.f: out.append((n, eq(a.f[n], b.f[n])))
        for n in ('shapeOfInput', 'shapeOfOutput'):
            if n in a.f: out.append((n, samevec(a.f[n], b.f[n])))
        return out
    return see
def layer(A):
    def u(P):
        return [compare(P, '%s and %s' % (A, B_), A, B_, layersee(A)) for B_ in concrete(P, 'BaseLayer')]
    return u
def network(cls):
    def u(P):
        def see(a, b):
            x, y = a.f['layers'], b.f['layers']
            return [('number of layers', eq(x.len, y.len)), ('layers', allin(x.len, lambda i: sameobj(sel(x.el, i), sel(y.el, i)))), ('optimizer', sameobj(a.f['optimizer'], b.f['optimizer']))]
        return compare(P, cls, cls, cls, see)
    return u
def every(P):
    """the kinds of layers are all of them"""
    ex = Ctx(P, 'kinds')
    ex.post('every kind of layer is compared', B(concrete(P, 'BaseLayer') == sorted(LAYERS)))
    return ex
UNITS = [('optimizers of layers', optimizer('LayerOptimizer')), ('optimizers of networks', optimizer('NeuralNetworkOptimizer'))] + \
        [(c, neuron(c)) for c in NEURONS] + [(c, layer(c)) for c in LAYERS] + [('kinds of layers', every)] + [(c, network(c)) for c in ('StraightforwardNeuralNetwork',)]
