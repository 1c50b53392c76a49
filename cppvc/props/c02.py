from .common import *
from .c27 import virtual
from .c01 import weight, pre, contracts, CLS, DENSE, FILTER, enum, numbers, gates, ctor, LIMIT
ASSUME = ['sizes of layers are C++ integers of 32 bits; memory is not exhausted', 'numbers of neurons are not negative (a negative number is refused by vector::reserve with std::length_error)']
KIND = {**{c: (t, 0) for c, t in DENSE.items()}, **{c + '%dD' % d: (t, d) for c, t in FILTER.items() for d in (1, 2)}}
TYPES = ('fullyConnected', 'recurrence', 'gruLayer', 'maxPooling', 'locallyConnected', 'convolution')
FILTERS = TYPES[3:]
INT = 2 ** 31 - 1
MAXI = 2073600
def sizes(ex, v):
    """ghost: product of the first k entries of the vector v of integers"""
    p = lambda k: app('product', [k], 'Int'); el = v.el
    ax = [ex.axiom(eq(p(I(0)), I(1))), ex.axiom(forall(['Int'], lambda k: implies(le(I(0), k), eq(p(add(k, I(1))), mul(p(k), sel(el, k))))))]
    return p, ax
def ints(ex, t):
    """every integer of the tree is a C++ int"""
    for _, x in leaves(t):
        if x.sort == 'Int': ex.req(and_(le(I(-INT - 1), x), le(x, I(INT))))
        elif x.sort == ('A', 'Int'): ex.req(forall(['Int'], lambda i: and_(le(I(-INT - 1), sel(x, i)), le(sel(x, i), I(INT)))))
def shapebad(p, v):
    """an entry below one, or too many values"""
    return or_(exin(v.len, lambda i: lt(sel(v.el, i), I(1))), and_(allin(v.len, lambda i: le(I(1), sel(v.el, i))), lt(I(MAXI), p(v.len))))
def number(P):
    """computeNumberOfInputs: the product of the entries, refused when an entry is below one or the product above the limit"""
    ex = Ctx(P, 'number of inputs'); ex.overflow = True
    v = ex.obj('shape', ('vec', ('int',))); t = ex.read(v)
    p, ax = sizes(ex, t)
    ints(ex, t.el)
    def inv(e, L):
        return [('product so far', lambda tau, q=q: and_(eq(L.at(q, tau), p(tau)), le(I(1), p(tau)), le(p(tau), I(MAXI)))) for q in L.unsolved] + [('sizes so far', lambda tau: allin(tau, lambda i: le(I(1), sel(t.el, i))))]
    ex.cands.append(inv)
    ok = lambda k: allin(k, lambda i: le(I(1), sel(t.el, i)))
    # products of positive entries never decrease
    allok = V('all sizes are positive', 'Bool')
    ex.req(eq(allok, ok(t.len)))
    g = ex.induction('products grow', lambda k: implies(and_(allok, le(k, t.len)), and_(le(I(1), p(k)), forall(['Int'], lambda i: implies(inr(I(0), i, k), le(p(i), p(k)))))), I(0))
    for o in ex.run(byparams(P, 'computeNumberOfInputs', 1), None, [v]):
        ex.S = o.st
        if o.thrown is None:
            ex.post('the number of inputs is the product of the sizes', eq(o.val, p(t.len)))
            ex.post('accepted: every size is at least one', ok(t.len))
            ex.post('accepted: the number of inputs is within the limit', and_(le(I(1), p(t.len)), le(p(t.len), I(MAXI))))
        else: ex.post('refused: a size is below one or the product is too large', shapebad(p, t))
    return ex
def throwing(e, cond, what):
    """a contract that throws when cond"""
    s = e.S; e.outs['thr'].append((s.fork(cond), what)); e.S = s.fork(not_(cond))
def ispart(s, nd):
    """entries of a shape of known length"""
    return [sel(s.el, I(i)) for i in range(nd)]
def makes(ex, P, cls):
    """contract of the constructor of class cls (C01, C03, C04): what the model must be; it does not throw then"""
    full = next(c for c in P.classes if c.split('::')[-1] == cls)
    def h(e, a, n):
        t = e.read(a[0]); ty, d = KIND[cls]
        e.oblig('post', '%s is made for its type' % cls, eq(t.f['type'], enum(P, 'layerType', ty)), n)
        for nm, x in pre(cls, t): e.oblig('post', '%s gets what it needs: %s' % (cls, nm), x, n)
        e.built.append((cls, t))
        return e.freshtree('made', ('cls', full))
    ex.contracts['new:' + full] = h
def layer(P, ty, nd):
    """LayerFactory::build for a model of type ty and an input of nd sizes; returns the context, the model and the outcomes"""
    ex = Ctx(P, '%s of %s sizes' % (ty, nd or 'any number of')); ex.overflow = True
    m = ex.obj('model', 'LayerModel'); v = ex.obj('shape', ('vec', ('int',)))
    ex.write(m.f('type'), enum(P, 'layerType', ty))
    if nd is not None: ex.write(v, Ve(I(nd), ex.read(v).el))
    if ty == 'maxPooling': ex.write(m.f('numberOfNeurons'), I(0))      # as the function MaxPooling makes it
    t, sh = ex.read(m), ex.read(v); d = ispart(sh, nd or 0)
    if nd is None and ty in FILTERS: ex.req(le(I(4), sh.len))
    anybad, anyprod = V('a size is below one or the product too large', 'Bool'), V('product of the sizes')
    if nd is None: ex.req(implies(not_(anybad), and_(le(I(1), anyprod), le(anyprod, I(MAXI)))))
    ex.req(le(I(0), t.f['numberOfNeurons']))
    for x in d + [t.f[k] for k in ('numberOfNeurons', 'kernelSize', 'numberOfFilters')]: ex.req(and_(le(I(-INT - 1), x), le(x, I(INT))))
    contracts(ex)
    ex.built = []
    for cls in CLS: makes(ex, P, cls)
    def number(e, fn, this, a, n):
        # proved for computeNumberOfInputs
        s = e.read(a[0])
        if nd is None:
            e.oblig('post', 'the number of inputs is that of the shape', treeeq(s, sh), n)
            throwing(e, anybad, 'InvalidArchitectureException')
            return anyprod
        x = ispart(s, nd)
        e.oblig('post', 'the number of inputs is that of the shape', B(s.len is I(nd) or e.simp(s.len) is I(nd)), n)
        throwing(e, or_(*[lt(y, I(1)) for y in x], lt(I(MAXI), prod(*x))), 'InvalidArchitectureException')
        return prod(*x)
    ex.contracts['computeNumberOfInputs'] = number
    fn = byparams(P, 'LayerFactory::build', 3, 'build(LayerModel&')
    k, F = t.f['kernelSize'], t.f['numberOfFilters']
    bad = or_(*[lt(x, I(1)) for x in d], lt(I(1000000), prod(*d)))
    if nd is None: bad = or_(eq(sh.len, I(0)), anybad, lt(I(1000000), anyprod))
    if nd is None and ty in FILTERS: bad = TRUE
    elif ty in FILTERS:
        space = d if nd == 1 else d[1:]
        bad = or_(bad, lt(k, I(1)), lt(F, I(1)), lt(I(1000000), F), *[lt(x, k) for x in space])
        if ty != 'maxPooling':
            w = (lambda x: add(sub(x, k), I(1))) if ty == 'convolution' else (lambda x: add(tdiv(x, k), ite(eq(tmod(x, k), I(0)), I(0), I(1))))
            bad = or_(bad, lt(I(INT), mul(F, prod(*[w(x) for x in space]))))
    ex.before = ex.S
    return ex, m, v, t, d, ex.run(fn, None, [m, v, V('optimizer', 'Ref')]), bad
def builds(ty, nd):
    def u(P):
        ex, m, v, t, d, outs, bad = layer(P, ty, nd)
        done = False
        for o in outs:
            ex.S = o.st
            if o.thrown is None:
                done = True; live = o.st
                ex.post('accepted: possible', not_(bad))
                if bad is TRUE: done = False; continue
                c, b = ex.built[-1]
                if not (isinstance(o.val, Un) and isinstance(o.val.t, St)) or len(ex.built) != 1: raise Unsupported('the layer made')
                ex.post('a layer of the right kind', B(o.val.t.cls.split('::')[-1] == c and KIND[c] == (ty, 0 if ty not in FILTERS else 1 if nd < 3 else 2)))
                ex.post('the layer has the inputs of the shape', eq(b.f['numberOfInputs'], prod(*d) if nd else V('product of the sizes')))
                if ty in FILTERS:
                    full = d if nd > 1 else [I(1)] + d
                    ex.post('the layer has the given shape', and_(*[eq(sel(b.f['shapeOfInput'].el, I(i)), x) for i, x in enumerate(full)]))
                    ex.post('the layer has the given kernel', eq(b.f['kernelSize'], t.f['kernelSize']))
                    if ty != 'maxPooling': ex.post('the layer has the given filters', eq(b.f['numberOfFilters'], t.f['numberOfFilters']))
                else: ex.post('the layer has the given neurons', eq(b.f['numberOfNeurons'], t.f['numberOfNeurons']))
                ex.post('the layer has the given activation and bias', and_(eq(b.f['neuron'].f['activationFunction'], t.f['neuron'].f['activationFunction']), eq(b.f['neuron'].f['bias'], t.f['neuron'].f['bias'])))
            else: ex.post('refused: impossible (%s)' % o.thrown, bad)
        ex.S = live if done else ex.before if bad is TRUE else ex.S
        if not done and bad is not TRUE: ex.post('nothing is built', bad)
        return ex
    return u
def refused(P):
    """an input in another place, and types that are no layer"""
    exs = []
    known = {v for (e, _), v in P.enums.items() if e == 'layerType'}
    for nm, val in (('input', enum(P, 'layerType', 'input')), ('a type without a layer', I(max(known) + 1))):
        ex = Ctx(P, nm); m = ex.obj('model', 'LayerModel'); v = ex.obj('shape', ('vec', ('int',)))
        ex.write(m.f('type'), val); contracts(ex); ex.built = []
        for cls in CLS: makes(ex, P, cls)
        def number(e, fn, this, a, n): throwing(e, V('bad shape', 'Bool'), 'InvalidArchitectureException'); return V('number of inputs')
        ex.contracts['computeNumberOfInputs'] = number
        for o in ex.run(byparams(P, 'LayerFactory::build', 3, 'build(LayerModel&'), None, [m, v, V('optimizer', 'Ref')]):
            ex.S = o.st
            if o.thrown is None: ex.post('never built', FALSE)
            else: ex.cover('refused')
        exs.append(ex)
    return exs
def sel_shape(t):
    s = t.el.f['shapeOfInput']
    return sel(s.len, I(0)), sel(s.el, I(0))
def chain(P):
    """LayerFactory::build for the whole list: what is refused, and layer i is made from model i+1 and the output shape of layer i-1"""
    ex = Ctx(P, 'chain')
    ls = ex.obj('layers', ('vec', ('uniq', ('cls', 'BaseLayer')))); ms = ex.obj('models', ('vec', ('cls', 'LayerModel')))
    ex.req(eq(ex.read(ls).len, I(0)))
    t = ex.read(ms); first = ex.read(ms.i(I(0)))
    made = lambda k: app('layer made', [k], 'Obj'); refuses = lambda k: app('layer refused', [k], 'Bool')
    sl, se = (lambda o: app('shape.len', [o], 'Int')), (lambda o, i: app('shape.el', [o, i], 'Int'))
    shapeof = lambda o: Ve(sl(o), lam(lambda i: se(o, i)))
    ex.req(forall(['Int'], lambda k: le(I(0), sl(made(k)))))
    c = ex.newroot('ghost:layers', I(0))
    fn = byparams(P, 'LayerFactory::build', 3, 'build(vector')
    def one(e, f, this, a, n):
        if len(f.params) != 3 or f.mangled == fn.mangled: return NotImplemented
        k = e.read(c); m, s = a[0], e.read(a[1])
        ok = isinstance(m, LV) and m.root == ms.root and len(m.path) == 1 and m.path[0][0] == 'i'; at = m.path[0][1] if ok else None
        e.oblig('post', 'layer i is made from model i + 1', and_(B(ok), eq(at, add(k, I(1))) if ok else FALSE), n)
        want = ite(eq(k, I(0)), sel(first.f['shapeOfInput'].el, V('w')), se(made(sub(k, I(1))), V('w')))
        e.oblig('post', 'the input of a layer has the shape of the output of the layer before', and_(eq(s.len, ite(eq(k, I(0)), first.f['shapeOfInput'].len, sl(made(sub(k, I(1)))))), eq(sel(s.el, V('w')), want)), n)
        throwing(e, refuses(k), 'InvalidArchitectureException')
        e.write(c, add(k, I(1)))
        # the factory may rewrite the model and the shape
        return made(k)
    ex.contracts['LayerFactory::build'] = one
    ex.contracts['obj:getShapeOfOutput'] = lambda e, f, o, a, n: shapeof(e.read(o))
    def inv(e, L):
        sh = lambda tau: sel_shape(L.tree(ms, tau))
        def P_(tau):
            l, el = sh(tau); j = sub(tau, I(1))
            return and_(eq(l, ite(eq(tau, I(0)), first.f['shapeOfInput'].len, sl(made(j)))), forall(['Int'], lambda w: eq(sel(el, w), ite(eq(tau, I(0)), sel(first.f['shapeOfInput'].el, w), se(made(j), w)))))
        return [('the current shape is that of the layer before', P_)]
    ex.cands.append(inv)
    bad0 = V('the shape of the input is refused', 'Bool')
    def number(e, f, this, a, n):
        e.oblig('post', 'the shape of the input is checked', B(isinstance(a[0], LV) and a[0].root == ms.root and a[0].same(ms.i(I(0)).f('shapeOfInput'))), n)
        throwing(e, bad0, 'InvalidArchitectureException'); return V('number of inputs')
    ex.contracts['computeNumberOfInputs'] = number
    N = t.len
    head = or_(lt(I(1000), N), lt(N, I(2)), ne(first.f['type'], enum(P, 'layerType', 'input')), bad0)
    ok = False
    for o in ex.run(fn, None, [ls, ms, V('optimizer', 'Ref')]):
        ex.S = o.st
        if o.thrown is None:
            ok = True; live = o.st
            ex.post('accepted: the list is possible', not_(head))
            ex.post('accepted: no layer is refused', allin(sub(N, I(1)), lambda k: not_(refuses(k))))
            r = ex.read(ls)
            ex.post('one layer per model after the input', eq(r.len, sub(N, I(1))))
            ex.post('the layers are in order', allin(r.len, lambda k: eq(sel(r.el, k), made(k))))
        else: ex.post('refused: the list or one of its layers is impossible', or_(head, exin(sub(N, I(1)), refuses)))
    if ok: ex.S = live
    return ex
UNITS = [('computeNumberOfInputs', number)]
for ty in TYPES:
    for nd in (1, 2, 3): UNITS.append(('%s %dD' % (ty, nd), builds(ty, nd)))
    UNITS.append(('%s, other dimensions' % ty, builds(ty, None)))
UNITS.append(('refused', refused))
UNITS.append(('chain', chain))
NEURON = {'FullyConnected': 'SimpleNeuron', 'Recurrence': 'RecurrentNeuron', 'GruLayer': 'GatedRecurrentUnit'}
def neuronok(t):
    """a neuron (or gate) within the limits: bias, number of weights, weights"""
    w, b = t.f['weights'], t.f['bias']; rec = [eq(w.len, add(t.f['numberOfInputs'], I(2)))] if 'lastOutput' in t.f else []
    return and_(le(R(-100000), b), le(b, R(10000)), le(I(1), w.len), le(w.len, I(LIMIT)), *rec, allin(w.len, lambda i: and_(le(R(-100000), sel(w.el, i)), le(sel(w.el, i), R(10000)))))
def neuron(cls):
    def u(P):
        ex = Ctx(P, cls); o = ex.obj('neuron', cls); s = ex.read(o)
        if cls == 'GatedRecurrentUnit':
            g = ('resetGate', 'updateGate', 'outputGate')
            bad = lambda k: V('error of ' + k)
            def one(e, f, this, a, n):
                k = this.path[-1]
                if this.root != o.root or len(this.path) != 1 or k not in [('f', x) for x in g]: raise Unsupported('validity of another object')
                return bad(k[1])
            ex.contracts['RecurrentNeuron::isValid'] = one
            want = and_(*[eq(bad(k), I(0)) for k in g])
        else: want = neuronok(s)
        fn = [P.bodies[m] for m, q in P.qual.items() if fn_name(q) == cls + '::isValid' and m in P.bodies][0]
        r = ex.go(fn, o, ())
        ex.post('valid exactly within the limits', implies(want, eq(r, I(0))))
        ex.post('not valid outside the limits', implies(eq(r, I(0)), want))
        unchanged(ex, 'isValid', o, s)
        return ex
    return u
def valid(cls):
    """isValid of a layer that was made from a possible model"""
    def u(P):
        ex = Ctx(P, cls)
        m = ex.obj('model', 'LayerModel')
        if cls.startswith('Max'): ex.write(m.f('numberOfNeurons'), I(0))
        t = ex.read(m); b = t.f['neuron'].f['bias']
        ex.req(*[x for _, x in pre(cls, t)]); ex.req(le(R(-100000), b), le(b, R(10000)))
        contracts(ex)
        full = next(c for c in P.classes if c.split('::')[-1] == cls)
        lv = ex.newroot('layer', ex.rawobj(full))
        ex.go(ctor(P, cls), lv, (m,) if cls.startswith('Max') else (m, V('optimizer', 'Ref')), ctor=True)
        N, W, out = numbers(cls, t); s = ex.read(lv)
        q = lambda k: eq(ex.read(lv).f['neurons'].len, k)
        if W is not None:
            for g in gates(cls):
                w = s.f['neurons'].el.f[g].f['weights'] if g else s.f['neurons'].el.f['weights']
                ex.post('weights of a neuron', allin(N, lambda i: eq(sel(w.len, i), W)))
                ex.post('weights start small', allin2(N, W, lambda i, j: and_(le(R(-3), sel(sel(w.el, i), j)), le(sel(sel(w.el, i), j), R(3)))))
        nc = NEURON.get(cls, 'SimpleNeuron'); el = s.f['neurons'].el
        good = lambda i: and_(*[neuronok(tsel(el.f[g] if g else el, i)) for g in gates(cls)])
        def nv(e, f, this, a, n):
            # proved for the neurons: zero exactly within the limits
            if not (this.root == lv.root and len(this.path) == 2 and this.path[0] == ('f', 'neurons')): raise Unsupported('validity of another object')
            return app('neuron.isValid', [this.path[1][1]], 'Int')
        ok = ex.axiom(forall(['Int'], lambda i: iff(eq(app('neuron.isValid', [i], 'Int'), I(0)), good(i)))) if W is not None else TRUE
        ex.contracts[nc + '::isValid'] = nv
        if W is not None:
            g1 = ex.post('neurons are good within the limits', implies(le(W, I(LIMIT)), allin(N, good)))
            v1 = ex.post('neurons are valid within the limits', implies(le(W, I(LIMIT)), allin(N, lambda i: eq(app('neuron.isValid', [i], 'Int'), I(0)))), [ok, g1])
            v2 = ex.post('neurons with too many weights are not valid', implies(and_(lt(I(LIMIT), W), le(I(1), N)), ne(app('neuron.isValid', [I(0)], 'Int'), I(0))))
        r = ex.go(virtual(P, cls, 'isValid'), lv, ())
        if W is None: ex.post('accepted', eq(r, I(0)))
        else:
            ex.post('accepted within the limits', implies(and_(le(I(1), N), le(N, I(LIMIT)), le(W, I(LIMIT))), eq(r, I(0))))
            ex.post('refused: more than a million weights', implies(and_(le(I(1), N), lt(I(LIMIT), W)), ne(r, I(0))))
            ex.post('refused: no neuron or too many', implies(or_(lt(N, I(1)), lt(I(LIMIT), N)), ne(r, I(0))))
        unchanged(ex, 'isValid', lv, s)
        return ex
    return u
def networkvalid(P):
    from .c01 import network
    ex = Ctx(P, 'isValid')
    o, s, L, n, ask = network(ex, P)
    v = lambda x: app('layer.isValid', [x], 'Int')
    ov = V('validity of the optimizer')
    ex.contracts['obj:isValid'] = lambda e, f, lv, a, nd: v(e.read(lv))
    ex.contracts['ref:isValid'] = lambda e, f, r, a, nd: ov
    r = ex.go(byparams(P, 'NeuralNetwork::isValid', 0), o, ())
    nI = ask('getNumberOfInputs')(I(0))
    ex.post('valid: within the limits, and the optimizer and all layers are valid', iff(eq(r, I(0)), and_(le(I(1), nI), le(nI, I(MAXI)), le(n, I(1000)), eq(ov, I(0)), allin(n, lambda i: eq(v(sel(L.el, i)), I(0))))))
    unchanged(ex, 'isValid', o, s)
    return ex
def whole(P):
    """the constructor of a network throws exactly when the factory does or the network is not valid"""
    ex = Ctx(P, 'constructor')
    ms = ex.obj('architecture', ('vec', ('cls', 'LayerModel'))); om = ex.obj('optimizer', 'NeuralNetworkOptimizerModel')
    cls = next(c for c in P.classes if c.split('::')[-1] == 'StraightforwardNeuralNetwork')
    bad, err = V('impossible', 'Bool'), V('error')
    calls = ex.newroot('ghost:calls', I(0)); opt = V('the optimizer', 'Ref')
    lv = ex.newroot('network', ex.rawobj(cls))
    def factory(e, f, this, a, n):
        e.oblig('post', 'the layers of the network are made from the architecture', B(a[0].root == lv.root and a[0].same(lv.f('layers'))), n)
        x = e.read(a[1]); y = ex0
        e.oblig('post', 'the architecture is the one given', and_(eq(x.len, y.len), treeeq(x.el, y.el)), n)
        e.oblig('post', 'the optimizer is the one of the network', eq(e.val(a[2]), e.read(lv).f['optimizer']), n)
        throwing(e, bad, 'InvalidArchitectureException')
        return None
    ex0 = ex.read(ms)
    ex.contracts['LayerFactory::build'] = factory
    ex.contracts['NeuralNetworkOptimizerFactory::build'] = lambda e, f, this, a, n: opt
    ex.contracts['NeuralNetwork::isValid'] = ex.contracts['StraightforwardNeuralNetwork::isValid'] = lambda e, f, this, a, n: err
    ex.contracts['NeuralNetwork::getNumberOfOutputs'] = lambda e, f, this, a, n: V('number of outputs')
    ex.req(le(I(0), V('number of outputs')))
    ctors = [P.bodies[m] for m, q in P.qual.items() if fn_name(q) == 'StraightforwardNeuralNetwork::StraightforwardNeuralNetwork' and m in P.bodies and len(P.bodies[m].params) == 2]
    ex.go(ctors[0], lv, (ms, om), throws=or_(bad, ne(err, I(0))), ctor=True)
    return ex
UNITS += [('first weights', weight)] + [('%s isValid' % c, neuron(c)) for c in NEURON.values()] + [('%s isValid' % c, valid(c)) for c in CLS] + [('network isValid', networkvalid), ('network constructor', whole)]
