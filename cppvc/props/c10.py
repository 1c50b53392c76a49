from .common import *
from .c27 import virtual, LAYERS
ASSUME = ['in the frame units of the layers indexes are in range (proved with the layers in C03, C04 and C05)',
          'the optimizers of a layer change nothing but the vector they are given (C11, C12, C27)']
# state of a neuron or layer that is not learned: working storage of the last passes
TRANSIENT = {'lastInputs', 'sum', 'errors', 'lastOutput', 'previousOutput', 'previousSum', 'recurrentError', 'updateGateOutput', 'outputGateOutput', 'maxValueIndexes'}
def learned(ex, what, lv, old):
    """every field that is not working storage is what it was"""
    new = ex.read(lv); groups = {}
    for (p, x), (_, y) in zip(leaves(new), leaves(old)):
        ns = [n for n in path(p)]
        if set(ns) & TRANSIENT: continue
        groups.setdefault('.'.join(ns), []).append(leafeq(x, y))
    for g, l in groups.items(): ex.post('%s leaves %s alone' % (what, g), and_(*l))
def path(p): return [x for x in p if x != 'el']
def mix(a, b):
    """a with the working storage of b"""
    for p, x in leaves(b):
        if set(p) & TRANSIENT: a = setleaf(a, p, x)
    return a
def layer(cls):
    def u(P):
        exs = []
        for name in ('output', 'outputForTraining'):
            ex = Ctx(P, name); ex.safety = False; exs.append(ex)
            o = ex.obj('layer', cls); v = ex.obj('inputs', ('vec', ('real',))); s, t = ex.read(o), ex.read(v)
            activations(ex)
            for q in ('ref:', 'obj:', '*::'): ex.contracts[q + 'updateWeights'] = lambda e, fn, lv, a, nd: e.oblig('post', 'a forward pass updates no weights', FALSE, nd)
            step = ex.newroot('ghost:step', I(0))
            def act(e, fn, lv, args, nd, step=step):
                # contract of the layer optimizers: only the vector changes
                k = e.read(step); e.write(step, add(k, I(1))); e.write(args[0], Ve(e.read(args[0]).len, app('after optimizer', [k], ('A', 'Real'))))
            for nm in ('applyAfterOutputForTesting', 'applyAfterOutputForTraining'): ex.contracts['obj:' + nm] = act
            ex.go(virtual(P, cls, name), o, (v, V('reset', 'Bool')))
            learned(ex, name, o, s)
            ex.post('the inputs are left alone', treeeq(ex.read(v), t))
        return exs
    return u
def twice(cls):
    """two forward passes on the same inputs, from states that differ in all working storage, return the same"""
    def u(P):
        ex = Ctx(P, 'twice'); ex.safety = False
        o = ex.obj('layer', cls); o2 = ex.obj('layer2', cls); v = ex.obj('inputs', ('vec', ('real',))); s, s2 = ex.read(o), ex.read(o2)
        s2 = mix(s, s2); ex.write(o2, s2)
        activations(ex)
        r1 = ex.go(virtual(P, cls, 'computeOutput'), o, (v, V('reset', 'Bool')))
        r2 = ex.go(virtual(P, cls, 'computeOutput'), o2, (v, V('reset2', 'Bool')))
        ex.post('the same number of outputs', eq(r1.len, r2.len))
        ex.post('the same outputs', allin(r1.len, lambda i: eq(sel(r1.el, i), sel(r2.el, i))))
        return ex
    return u
def twicepool(cls):
    """the same for max pooling, whose output is the value of the highest cell of its window whatever the winners of the last pass (C04)"""
    from . import c04
    def u(P):
        ex = Ctx(P, 'twice')
        o, s, K, S, nI, idx = c04.layer(ex, cls)
        v = ex.obj('inputs', ('vec', ('real',))); t = ex.read(v); ex.req(eq(t.len, nI))
        o2 = ex.obj('layer2', cls); s2 = mix(s, ex.read(o2)); ex.write(o2, s2); ex.req(eq(s2.f['maxValueIndexes'].len, K))
        run = [o]
        def inv(e, L):
            if len(e.ctx) == 0: return []
            k = e.ctx[-1]; M = lambda tau, lv=run[0]: sel(L.tree(lv, tau).f['maxValueIndexes'].el, k)
            return [('the highest cell so far', lambda tau: or_(c04.best(t, idx, k, tau, M(tau)), and_(eq(M(tau), I(-1)), allin(tau, lambda i: lt(idx(k, i), I(0))))))]
        ex.cands.append(inv)
        rs = []
        for lv in (o, o2):
            run[0] = lv
            r = ex.go(virtual(P, cls, 'computeOutput'), lv, (v, V('reset' + lv.root, 'Bool'))); rs.append(r); m = ex.read(lv).f['maxValueIndexes'].el
            ex.post('every window has a winner', allin(K, lambda k: le(I(0), sel(m, k))))
            ex.post('one output per window: the value of the winner', and_(eq(r.len, K), allin(K, lambda k: eq(sel(r.el, k), sel(t.el, sel(m, k))))))
            a = ex.post('the output is a value of the window', allin(K, lambda k: exin(S, lambda i: and_(le(I(0), idx(k, i)), eq(sel(r.el, k), sel(t.el, idx(k, i)))))))
            b = ex.post('the output is not less than any value of the window', allin2(K, S, lambda k, i: implies(le(I(0), idx(k, i)), le(sel(t.el, idx(k, i)), sel(r.el, k)))))
            rs += [a, b]
        ex.post('the same number of outputs', eq(rs[0].len, rs[3].len))
        k = fresh('window', 'Int')
        ex.post('the same outputs', implies(inr(I(0), k, K), eq(sel(rs[0].el, k), sel(rs[3].el, k))), [rs[1], rs[2], rs[4], rs[5]])
        return ex
    return u
def only_inference(ex, s, name='output'):
    """contracts of the layers for the functions of the network: its output is some vector, anything else a layer can do is not inference"""
    step = ex.newroot('ghost:passes', I(0))
    def out(e, fn, lv, a, n):
        k = e.read(step); e.write(step, add(k, I(1)))
        ln = app('len of pass', [k], 'Int'); e.assume(le(I(0), ln))
        return Ve(ln, app('pass', [k], ('A', 'Real')))
    def never(what):
        def c(e, fn, lv, a, n):
            e.oblig('post', 'inference does not call %s of a layer' % what, FALSE, n)
            if what == 'train': return None
            return Ve(fresh('len', 'Int'), fresh('values', ('A', 'Real')))
        return c
    for nm in ('output', 'outputForTraining', 'backOutput', 'train'): ex.contracts['obj:' + nm] = out if nm == name else never(nm)
    ex.contracts['obj:getShapeOfOutput'] = lambda e, fn, lv, a, n: e.obj('shape', ('vec', ('int',)))
    ex.contracts['NeuralNetwork::getNumberOfOutputs'] = lambda e, fn, this, a, n: app('outputs of', [e.read(this).f['layers'].len], 'Int')
def frame(ex, what, o, s, but=()):
    n = ex.read(o)
    for (p, x), (_, y) in zip(leaves(n), leaves(s)):
        if p[0] in but: continue
        if p[0] in ('layers', 'optimizer', 'numberOfTraining'): ex.post('%s leaves %s alone' % (what, '.'.join(path(p))), leafeq(x, y))
def network(P):
    exs = []
    for fn, cls, n in (('NeuralNetwork::output', 'NeuralNetwork', 1), ('StraightforwardNeuralNetwork::computeOutput', 'StraightforwardNeuralNetwork', 1), ('StraightforwardNeuralNetwork::computeCluster', 'StraightforwardNeuralNetwork', 1), ('NeuralNetwork::getLayerOutputs', 'NeuralNetwork', 0),
                       ('NeuralNetwork::outputForTraining', 'NeuralNetwork', 1)):
        ex = Ctx(P, fn); exs.append(ex); what = fn.split('::')[1]
        o = ex.obj('network', cls); v = ex.obj('inputs', ('vec', ('real',))); s, t = ex.read(o), ex.read(v); ex.req(le(I(1), s.f['layers'].len))
        only_inference(ex, s, 'outputForTraining' if what == 'outputForTraining' else 'output')
        ex.go(byparams(P, fn, n + 1), o, (v,) + ((V('reset', 'Bool'),) if n else ()))
        frame(ex, what, o, s)
        ex.post('the inputs are left alone', treeeq(ex.read(v), t))
    return exs
def evaluation(P):
    exs = []
    kinds = P.enums
    ex = Ctx(P, 'evaluate'); exs.append(ex)
    o = ex.obj('net', 'StraightforwardNeuralNetwork'); data = ex.obj('data', 'Data'); w = ex.obj('wait', 'Wait'); s = ex.read(o)
    ex.req(le(I(1), s.f['layers'].len))
    only_inference(ex, s)
    vec = lambda nm: lambda e, f, this, a, n: Ve(app('len of ' + nm, [e.val(a[0])], 'Int'), app(nm, [e.val(a[0])], ('A', 'Real')))
    for nm in ('getTestingData', 'getTestingOutputs'): ex.contracts['Data::' + nm] = vec(nm)
    ex.contracts['Data::getTestingLabel'] = lambda e, f, this, a, n: app('label', [e.val(a[0])], 'Int')
    for nm in ('needToEvaluateOnTestingData', 'isFirstTestingDataOfTemporalSequence'): ex.contracts['Data::' + nm] = (lambda nm: lambda e, f, this, a, n: app(nm, [e.val(a[0])], 'Bool'))(nm)
    def stat(e, f, this, a, n): pass
    # contract of the statistics (C13, C14): they change the statistics only
    for nm in ('evaluateOnceForRegression', 'evaluateOnceForMultipleClassification', 'evaluateOnceForClassification', 'startTesting', 'stopTesting', 'setResultsAsNan'): ex.contracts['StatisticAnalysis::' + nm] = stat
    ex.contracts['StraightforwardNeuralNetwork::saveSync'] = stat
    for q in ('logInProgress', 'logAccuracy'): ex.contracts['StraightforwardNeuralNetwork::' + q] = stat
    for out in ex.run(byparams(P, 'StraightforwardNeuralNetwork::evaluate', 2), o, [data, Ptr(w)]):
        ex.S = out.st
        frame(ex, 'evaluate' + (' (%s)' % out.thrown if out.thrown else ''), o, s)
    return exs
UNITS = [('weights of ' + c, layer(c)) for c in LAYERS] + [('two passes of ' + c, twice(c)) for c in LAYERS if c not in ('Recurrence', 'GruLayer') and not c.startswith('Max')] + [('two passes of ' + c, twicepool(c)) for c in ('MaxPooling1D', 'MaxPooling2D')] + [('network', network), ('evaluation', evaluation)]
