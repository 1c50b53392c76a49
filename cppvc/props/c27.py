from .common import *
ASSUME = ['errors, weights and values are mathematical reals']
def optimizers(P):
    """kind -> (class, name of its value)"""
    return {'l1Regularization': ('L1Regularization', 'value'), 'l2Regularization': ('L2Regularization', 'value'), 'errorMultiplier': ('ErrorMultiplier', 'factor'), 'dropout': ('Dropout', 'value'), 'softmax': ('Softmax', None)}
def pick(P, cls, name):
    c = P.classes[next(k for k in P.classes if k.split('::')[-1] == cls)]
    m = next(x for x in c.methods if x.get('name') == name)
    return P.bodies[m['mangledName']]
def back(cls, avg, spec):
    def u(P):
        ex = Ctx(P, cls)
        o = ex.obj('o', cls); v = ex.obj('errors', ('vec', ('real',)))
        old, t = ex.read(o), ex.read(v)
        w = V('average', 'Real')
        if avg:
            def get(e, fn, ref, args, n):
                e.oblig('post', 'the average is that of the own layer', eq(ref, old.f['layer']), n)
                return w
            ex.contracts['ref:' + avg] = get
        ex.go(pick(P, cls, 'applyBeforeBackpropagation'), o, (v,))
        r = ex.read(v)
        ex.post('the number of errors stays', eq(r.len, t.len))
        ex.post('every error is changed as configured', allin(t.len, lambda i: eq(sel(r.el, i), spec(sel(t.el, i), old, w))))
        unchanged(ex, 'backpropagation', o, old)
        for nm, more in (('applyAfterOutputForTraining', (V('reset', 'Bool'),)), ('applyAfterOutputForTesting', ())):
            s = ex.S
            v = ex.obj('outputs', ('vec', ('real',))); t = ex.read(v)
            ex.go(pick(P, cls, nm), o, (v,) + more)
            ex.post('%s leaves the outputs alone' % nm, treeeq(ex.read(v), t))
            unchanged(ex, nm, o, old)
        return ex
    return u
def average(neuron, layercls, name, f):
    """average over the neurons of the sum of f(weight)"""
    def u(P):
        ex = Ctx(P, name + neuron)
        fn = next((P.bodies[m] for m, q in P.qual.items() if m in P.bodies and 'Layer<' in q and neuron in q and '::' + name + '(' in q), None)
        if fn is None: raise Unsupported('%s of layers of %s' % (name, neuron))
        o = ex.obj('layer', fn.cls.name if fn.cls is not None else layercls)
        s = ex.read(o); ns = s.f['neurons']; N = ns.len
        ex.req(le(I(1), N))
        # weights of neuron k as getWeights() hands them out
        if neuron == 'GatedRecurrentUnit':
            wl = lambda k: sel(V('weights.len', ('A', 'Int')), k); we = lambda k, j: sel(sel(V('weights', ('A', ('A', 'Real'))), k), j)
            ex.facts.append(forall(['Int'], lambda k: le(I(0), wl(k))))
            def gw(e, fn, this, args, n):
                # contract of getWeights (proved below): the weights of this neuron
                if not (this.root == o.root and this.path[0] == ('f', 'neurons') and len(this.path) == 2): raise Unsupported('getWeights of another object')
                k = this.path[1][1]
                return Ve(wl(k), lam(lambda j: we(k, j)))
            ex.contracts['GatedRecurrentUnit::getWeights'] = gw
            tot = lambda k: sum_(wl(k), lambda j: f(we(k, j)))
        else:
            tot = lambda k: sum_(sel(ns.el.f['weights'].len, k), lambda j: f(sel(sel(ns.el.f['weights'].el, k), j)))
        r = ex.go(fn, o, ())
        ex.post('the sum over all weights of all neurons, per neuron', eq(r, rdiv(sum_(N, tot), toreal(N))))
        unchanged(ex, name, o, s)
        return ex
    return u
def gruweights(P):
    ex = Ctx(P, 'getWeights')
    o = ex.obj('gru', 'GatedRecurrentUnit'); s = ex.read(o)
    r = ex.go(P.find('GatedRecurrentUnit::getWeights'), o, ())
    at = I(0)
    for g in ('resetGate', 'updateGate', 'outputGate'):
        w = s.f[g].f['weights']
        ex.post('weights of the %s' % g, allin(w.len, lambda i: eq(sel(r.el, add(at, i)), sel(w.el, i))))
        at = add(at, w.len)
    ex.post('nothing else', eq(r.len, at))
    unchanged(ex, 'getWeights', o, s)
    return ex
def factory(kind):
    def u(P):
        ex = Ctx(P, 'build ' + kind)
        cls, field = optimizers(P)[kind]
        lay = ex.obj('layer', 'FullyConnected'); m = ex.obj('model', 'LayerOptimizerModel')
        v = V('value', 'Real')
        # the model a user writes
        up = kind[0].upper() + kind[1:]
        c = [P.bodies[x] for x, q in P.qual.items() if x in P.bodies and fn_name(q).split('::')[-1] == up and 'LayerOptimizerModel' in P.bodies[x].type]
        if len(c) != 1: raise Unsupported('function ' + up)
        mt = ex.go(c[0], None, (v,) if field else ())
        ex.post('the model is of its kind', eq(mt.f['type'], I(P.enums[('layerOptimizerType', kind)])))
        if field: ex.post('the model carries the value', eq(mt.f['value'], v))
        ex.S.mem[m.root] = mt
        if kind == 'dropout': ex.contracts['std:generate'] = lambda e, a, n: None; ex.contracts['obj:getNumberOfNeurons'] = ex.contracts['ref:getNumberOfNeurons'] = lambda *a: V('n')
        r = ex.go(byparams(P, 'LayerOptimizerFactory::build', 2), None, (m, Ptr(lay)))
        ok = isinstance(r, Un) and isinstance(r.t, St) and r.t.cls.split('::')[-1] == cls
        ex.post('an optimizer of this kind is created', B(ok))
        if ok and field: ex.post('with its value', eq(r.t.f[field], v))
        if ok: ex.post('for this layer', B(ex.ptrs.get(r.t.f['layer']) is not None and ex.ptrs[r.t.f['layer']].same(lay)))
        return ex
    return u
LAYERS = ['FullyConnected', 'Recurrence', 'GruLayer', 'Convolution1D', 'Convolution2D', 'LocallyConnected1D', 'LocallyConnected2D', 'MaxPooling1D', 'MaxPooling2D']
def virtual(P, cls, name):
    """the function a call of the virtual function name on an object of class cls runs"""
    def find(c):
        c = P.classes.get(c)
        if c is None: return None
        for x in c.methods:
            if x.get('name') == name and x.get('mangledName') in P.bodies: return P.bodies[x['mangledName']]
        for b in c.bases:
            r = find(b)
            if r is not None: return r
    r = find(cls)
    if r is None: raise Unsupported('%s of %s' % (name, cls))
    return r
def apply(cls):
    """a layer lets its optimizers act one after the other, in the order given"""
    def u(P):
        exs = []
        for name, virt, core in (('output', 'applyAfterOutputForTesting', 'computeOutput'), ('outputForTraining', 'applyAfterOutputForTraining', 'computeOutput'), ('backOutput', 'applyBeforeBackpropagation', 'computeBackOutput'), ('train', 'applyBeforeBackpropagation', 'computeTrain')):
            ex = Ctx(P, name); exs.append(ex)
            o = ex.obj('layer', cls); v = ex.obj('vector', ('vec', ('real',)))
            s = ex.read(o); n = s.f['optimizers'].len
            step = ex.newroot('ghost:step', I(0))
            # values(k, i): element i of the vector after k optimizers
            vl = lambda k: app('values.len', [k], 'Int'); vv = lambda k: lam(lambda i: app('values', [k, i], 'Real'))
            now = lambda e, x, k: and_(eq(x.len, vl(k)), allin(vl(k), lambda i: eq(sel(x.el, i), app('values', [k, i], 'Real'))))
            back = core != 'computeOutput'
            rst = V('temporalReset', 'Bool')
            if back: ex.req(now(ex, ex.read(v), I(0)))
            res = ex.read(ex.obj('result', ('vec', ('real',))))
            def act(e, fn, lv, args, nd):
                k = e.read(step)
                x = e.read(args[0])
                e.oblig('post', 'optimizer number k acts on the result of the k before it', and_(eq(e.read(lv), sel(s.f['optimizers'].el, k)), now(e, x, k)), nd)
                if len(args) > 1: e.oblig('post', 'the optimizer is told about the reset', eq(e.val(args[1]), rst), nd)
                e.write(args[0], Ve(vl(add(k, I(1))), vv(add(k, I(1)))))
                e.write(step, add(k, I(1)))
            ex.contracts['obj:' + virt] = act
            def compute(e, fn, this, args, nd):
                k = e.read(step)
                if back:
                    e.oblig('post', 'errors reach the neurons after all optimizers', and_(eq(k, n), now(e, e.read(args[0]), n)), nd)
                    return None if core == 'computeTrain' else res
                e.oblig('post', 'the layer computes the outputs of its inputs first', and_(eq(k, I(0)), treeeq(e.read(args[0]), e.read(v)), eq(e.val(args[1]), rst)), nd)
                return Ve(vl(I(0)), vv(I(0)))
            ex.contracts['*::' + core] = compute
            def inv(e, L):
                return [('as many optimizers have acted', lambda tau: and_(eq(L.tree(step, tau), tau)))]
            ex.cands.append(inv)
            r = ex.go(virtual(P, cls, name), o, (v,) if back else (v, rst))
            ex.post('all optimizers have acted', eq(ex.read(step), n))
            if not back: ex.post('%s is the result of the last optimizer' % name, now(ex, r, n))
            elif name == 'backOutput': ex.post('the errors of the layer are handed on', treeeq(r, res))
            unchanged(ex, name, o, s)
        return exs
    return u
def order(P):
    ex = Ctx(P, 'build all')
    opts = ex.obj('optimizers', ('vec', ('uniq', ('cls', 'LayerOptimizer')))); m = ex.obj('model', 'LayerModel'); lay = ex.obj('layer', 'FullyConnected')
    ex.req(eq(ex.read(opts).len, I(0)))
    t = ex.read(m); mo = t.f['optimizers']
    made = lambda k, v: app('made', [k, v], 'Obj')
    def one(e, fn, this, args, n):
        x = e.val(args[0]); p = e.val(args[1])
        e.oblig('post', 'every optimizer is made for this layer', B(isinstance(p, Ptr) and p.lv.same(lay)), n)
        return made(x.f['type'], x.f['value'])
    ex.contracts['LayerOptimizerFactory::build/2'] = one
    ex.go(byparams(P, 'LayerOptimizerFactory::build', 3), None, (opts, m, Ptr(lay)))
    r = ex.read(opts)
    ex.post('as many optimizers as models', eq(r.len, mo.len))
    ex.post('optimizer number i is made from model number i', allin(mo.len, lambda i: eq(sel(r.el, i), made(sel(mo.el.f['type'], i), sel(mo.el.f['value'], i)))))
    return ex
UNITS = [('optimizers of ' + c, apply(c)) for c in LAYERS] + \
        [('error multiplier', back('ErrorMultiplier', None, lambda x, o, w: mul(x, o.f['factor']))),
         ('L1', back('L1Regularization', 'getAverageOfAbsNeuronWeights', lambda x, o, w: add(x, mul(o.f['value'], w)))),
         ('L2', back('L2Regularization', 'getAverageOfSquareNeuronWeights', lambda x, o, w: add(x, mul(o.f['value'], w))))] + \
        [('%s of %s' % (t, n), average(n, l, g, f)) for n, l in (('SimpleNeuron', 'FullyConnected'), ('RecurrentNeuron', 'Recurrence'), ('GatedRecurrentUnit', 'GruLayer'))
         for g, f, t in (('getAverageOfAbsNeuronWeights', absr, 'average absolute weight'), ('getAverageOfSquareNeuronWeights', lambda w: mul(w, w), 'average squared weight'))] + \
        [('weights of a gated unit', gruweights)] + [('factory ' + k, factory(k)) for k in ('l1Regularization', 'l2Regularization', 'errorMultiplier', 'dropout', 'softmax')] + [('list of optimizers', order)]
