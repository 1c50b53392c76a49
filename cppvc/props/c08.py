from .common import *
from .c27 import virtual
ASSUME = ['a neuron object is one object: nothing else changes its fields between the calls the property speaks about']
def wrap(p, n): return ite(le(n, p), I(0), p)
def cd(P, n): return byparams(P, 'CircularData::' + n, 1 if n != 'getBack' else 0)
def seteq(r, s, slot, v):
    """queue r is queue s with v in one slot"""
    f = []
    for (p, a), (_, b) in zip(leaves(r.el), leaves(s.el)):
        f.append((p, a, b))
    n = v.len
    g = [eq(r.len, s.len), eq(sel(r.el.len, slot), n), allin(n, lambda i: eq(sel(sel(r.el.el, slot), i), sel(v.el, i)))]
    g += [allin(s.len, lambda k: implies(ne(k, slot), and_(*[eq(sel(a, k), sel(b, k)) for _, a, b in f])))]
    return and_(*g)
def pushed(new, old, v):
    """CircularData old after pushBack(v)"""
    q, n = old.f['queue'], old.f['queue'].len
    w = wrap(old.f['indexPush'], n)
    return [('stores the data in its slot only', seteq(new.f['queue'], q, w, v)), ('moves on by one', eq(new.f['indexPush'], add(w, I(1)))), ('keeps the reading position', eq(new.f['indexGet'], old.f['indexGet']))]
def got(new, old):
    w = wrap(old.f['indexGet'], old.f['queue'].len)
    return [('keeps the data', treeeq(new.f['queue'], old.f['queue'])), ('moves the reading position on by one', eq(new.f['indexGet'], add(w, I(1)))), ('keeps the writing position', eq(new.f['indexPush'], old.f['indexPush']))]
def cok(s):
    """what every history keeps: there is a slot and both positions are within the queue"""
    n = s.f['queue'].len
    return and_(le(I(1), n), le(I(0), s.f['indexPush']), le(s.f['indexPush'], n), le(I(0), s.f['indexGet']), le(s.f['indexGet'], n))
def push(P):
    ex = Ctx(P, 'pushBack'); q = ex.obj('q', 'CircularData'); v = ex.obj('data', ('vec', ('real',)))
    s, t = ex.read(q), ex.read(v); ex.req(cok(s))
    ex.go(cd(P, 'pushBack'), None if False else q, (t,))
    for nm, f in pushed(ex.read(q), s, t): ex.post('pushBack ' + nm, f)
    ex.post('positions stay within the queue', cok(ex.read(q)))
    return ex
def get(P):
    ex = Ctx(P, 'getBack'); q = ex.obj('q', 'CircularData')
    s = ex.read(q); ex.req(cok(s))
    r = ex.go(cd(P, 'getBack'), q, ())
    d = ex.read(r.lv); w = wrap(s.f['indexGet'], s.f['queue'].len)
    ex.post('getBack returns the entry at the reading position', and_(eq(d.len, sel(s.f['queue'].el.len, w)), leafeq(d.el, sel(s.f['queue'].el.el, w))))
    for nm, f in got(ex.read(q), s): ex.post('getBack ' + nm, f)
    ex.post('positions stay within the queue', cok(ex.read(q)))
    return ex
def init(P):
    ex = Ctx(P, 'initialize'); q = ex.obj('q', 'CircularData'); s = ex.read(q)
    b, d = V('queueSize'), V('dataSize'); ex.req(le(I(1), b), le(I(0), d))
    ex.go(byparams(P, 'CircularData::initialize', 2), q, (b, d))
    r = ex.read(q).f['queue']
    ex.post('as many slots as positions', eq(r.len, b))
    ex.post('every slot holds zeros', allin(b, lambda k: and_(eq(sel(r.el.len, k), d), allin(d, lambda i: eq(sel(sel(r.el.el, k), i), R(0))))))
    unchanged(ex, 'initialize', q, s, but=('queue',))
    return ex
def passes(P):
    """b pushes and then b reads, starting at the beginning of a pass (positions 0 or b)"""
    b = V('b'); inl = lambda j: app('input.len', [j], 'Int'); ine = lambda j, i: app('input', [j, i], 'Real')
    start = lambda p: or_(eq(p, I(0)), eq(p, b))
    holds = lambda q, j: and_(eq(sel(q.el.len, j), inl(j)), allin(inl(j), lambda i: eq(sel(sel(q.el.el, j), i), ine(j, i))))
    pos = lambda p, i: ite(eq(i, I(0)), start(p), eq(p, i)) if False else or_(and_(eq(i, I(0)), start(p)), and_(lt(I(0), i), eq(p, i)))
    def PInv(s, i): return and_(eq(s.f['queue'].len, b), pos(s.f['indexPush'], i), start(s.f['indexGet']), allin(i, lambda j: holds(s.f['queue'], j)))
    def GInv(s, i): return and_(eq(s.f['queue'].len, b), eq(s.f['indexPush'], b), pos(s.f['indexGet'], i), allin(b, lambda j: holds(s.f['queue'], j)))
    exs = []
    i = V('i')
    ex = Ctx(P, 'outputs of a pass'); exs.append(ex)
    q = ex.obj('q', 'CircularData'); s = ex.read(q)
    ex.req(le(I(1), b), inr(I(0), i, b), le(I(0), inl(i)))
    ex.req(PInv(s, i))
    ex.cover('output i of a pass')
    ex.go(cd(P, 'pushBack'), q, (Ve(inl(i), lam(lambda k: ine(i, k))),))
    ex.post('after output i the first i+1 inputs of the pass are stored in order', PInv(ex.read(q), add(i, I(1))))
    ex = Ctx(P, 'between outputs and updates'); exs.append(ex)
    q = ex.obj('q', 'CircularData'); s = ex.read(q)
    ex.req(le(I(1), b)); ex.lemma('a pass may start with what any earlier complete pass left', implies(and_(eq(s.f['queue'].len, b), start(s.f['indexPush']), start(s.f['indexGet'])), PInv(s, I(0))))
    ex.lemma('after b outputs the updates find the inputs of the pass', implies(PInv(s, b), GInv(s, I(0))))
    ex.lemma('an inference pass leaves a state every pass may start with', implies(PInv(s, b), and_(eq(s.f['queue'].len, b), start(s.f['indexPush']), start(s.f['indexGet']))))
    ex.lemma('b updates leave a state every pass may start with', implies(GInv(s, b), and_(eq(s.f['queue'].len, b), start(s.f['indexPush']), start(s.f['indexGet']))))
    ex = Ctx(P, 'updates of a pass'); exs.append(ex)
    q = ex.obj('q', 'CircularData'); s = ex.read(q)
    ex.req(le(I(1), b), inr(I(0), i, b)); ex.req(GInv(s, i)); ex.cover('update i of a pass')
    r = ex.go(cd(P, 'getBack'), q, ()); d = ex.read(r.lv)
    ex.post('update i reads the input of output i', and_(eq(d.len, inl(i)), allin(inl(i), lambda k: eq(sel(d.el, k), ine(i, k)))))
    ex.post('the next update follows', GInv(ex.read(q), add(i, I(1))))
    return exs
def age(P):
    """changes of weights: one read and one push per update; what is read was pushed b updates before (or is the initial zero)"""
    b, p, u, w = V('b'), V('p'), V('u'), V('w')
    ex = Ctx(P, 'weight changes'); q = ex.obj('q', 'CircularData'); s = ex.read(q)
    # H(k): weight change number k (k<0: the zeros of the construction)
    hl = lambda k: app('change.len', [k], 'Int'); he = lambda k, i: app('change', [k, i], 'Real')
    def Inv(s, u):
        n, g, pp, qq = s.f['queue'].len, s.f['indexGet'], s.f['indexPush'], s.f['queue']
        ag = lambda j: ite(lt(j, pp), sub(pp, j), add(sub(pp, j), b))       # slot j was written ag(j) updates ago
        return and_(eq(n, b), le(I(0), pp), le(pp, b), eq(wrap(g, b), wrap(pp, b)), le(I(0), g), le(g, b),
                    allin(b, lambda j: and_(eq(sel(qq.el.len, j), hl(sub(u, ag(j)))), allin(hl(sub(u, ag(j))), lambda i: eq(sel(sel(qq.el.el, j), i), he(sub(u, ag(j)), i))))))
    ex.req(le(I(1), b), le(I(0), u), le(I(0), hl(u))); ex.req(Inv(s, u)); ex.cover('update number u')
    r = ex.go(cd(P, 'getBack'), q, ()); d = ex.read(r.lv)
    old = sub(u, b)
    ex.post('an update reads the weight changes of the update b steps earlier', and_(eq(d.len, hl(old)), allin(hl(old), lambda i: eq(sel(d.el, i), he(old, i)))))
    ex.go(cd(P, 'pushBack'), q, (Ve(hl(u), lam(lambda k: he(u, k))),))
    ex.post('every later update reads the changes of its own b steps earlier', Inv(ex.read(q), add(u, I(1))))
    ex2 = Ctx(P, 'first update'); q = ex2.obj('q', 'CircularData'); s = ex2.read(q); n = V('n')
    ex2.req(le(I(1), b), eq(s.f['queue'].len, b), eq(s.f['indexPush'], I(0)), eq(s.f['indexGet'], I(0)), allin(b, lambda k: and_(eq(sel(s.f['queue'].el.len, k), n), allin(n, lambda i: eq(sel(sel(s.f['queue'].el.el, k), i), R(0))))))
    ex2.req(forall(['Int'], lambda k: implies(lt(k, I(0)), eq(hl(k), n))), forall(['Int', 'Int'], lambda k, i: implies(lt(k, I(0)), eq(he(k, i), R(0)))))
    ex2.lemma('before the first update all changes are zero', Inv(s, I(0)))
    return [ex, ex2]
def neuron(cls):
    def u(P):
        exs = []
        args = lambda v: (v, V('reset', 'Bool')) if cls == 'RecurrentNeuron' else (v,)
        def setup(nm):
            ex = Ctx(P, nm); exs.append(ex)
            o = ex.obj('neuron', cls); s = ex.read(o)
            ex.req(cok(s.f['lastInputs']), cok(s.f['previousDeltaWeights']))
            activations(ex)
            return ex, o, s
        ex, o, s = setup('output'); v = ex.obj('inputs', ('vec', ('real',))); t = ex.read(v)
        k = I(2 if cls == 'RecurrentNeuron' else 1)
        ex.req(eq(s.f['weights'].len, add(t.len, k)))
        ex.go(byparams(P, cls + '::output', len(args(v))), o, args(v))
        for nm, f in pushed(ex.read(o).f['lastInputs'], s.f['lastInputs'], t): ex.post('output: ' + nm, f)
        unchanged(ex, 'output', o, s, fields=('previousDeltaWeights', 'batchSize', 'weights', 'bias'))
        for name in ('backOutput', 'train'):
            ex, o, s = setup(name)
            ex.req(eq(s.f['weights'].len, add(s.f['errors'].len, k)), eq(s.f['errors'].len, s.f['numberOfInputs']))
            cnt = ex.newroot('ghost:updates', I(0))
            def upd(e, fn, ref, a, n, o=o, s=s, cnt=cnt):
                e.oblig('post', 'the optimizer of the neuron updates this neuron', and_(eq(ref, s.f['optimizer']), B(a[0].same(o))), n)
                e.write(cnt, add(e.read(cnt), I(1)))
            ex.contracts['ref:updateWeights'] = upd
            ex.go(byparams(P, '%s::%s' % (cls, name), 1), o, (V('error', 'Real'),))
            ex.post('%s: one update' % name, eq(ex.read(cnt), I(1)))
            unchanged(ex, name, o, s, fields=('lastInputs', 'previousDeltaWeights', 'weights'))
        ex = Ctx(P, 'updateWeights'); exs.append(ex)
        opt = ex.obj('sgd', 'StochasticGradientDescent'); o = ex.obj('neuron', cls); s = ex.read(o)
        reqs(ex, s, cls)
        activations(ex)
        ex.go(byparams(P, 'StochasticGradientDescent::updateWeights', 2, cls), opt, (o, V('error', 'Real')))
        for nm, f in got(ex.read(o).f['lastInputs'], s.f['lastInputs']): ex.post('updateWeights, inputs: ' + nm, f)
        n, od = ex.read(o).f['previousDeltaWeights'], s.f['previousDeltaWeights']
        ex.post('updateWeights, changes: one is read', eq(n.f['indexGet'], add(wrap(od.f['indexGet'], od.f['queue'].len), I(1))))
        w = wrap(od.f['indexPush'], od.f['queue'].len)
        ex.post('updateWeights, changes: one is stored', eq(n.f['indexPush'], add(w, I(1))))
        ex.post('updateWeights, changes: the others stay', and_(eq(n.f['queue'].len, od.f['queue'].len), allin(od.f['queue'].len, lambda k: implies(ne(k, w), and_(*[eq(sel(a, k), sel(b, k)) for (_, a), (_, b) in zip(leaves(n.f['queue'].el), leaves(od.f['queue'].el))])))))
        return exs
    return u
def reqs(ex, s, cls):
    """invariants of a neuron when it is updated"""
    li, pd, nI = s.f['lastInputs'], s.f['previousDeltaWeights'], s.f['numberOfInputs']
    k = 2 if cls == 'RecurrentNeuron' else 1
    ex.req(cok(li), cok(pd), le(I(0), nI), le(I(1), s.f['batchSize']), eq(s.f['weights'].len, add(nI, I(k))))
    ex.req(allin(li.f['queue'].len, lambda j: eq(sel(li.f['queue'].el.len, j), nI)), allin(pd.f['queue'].len, lambda j: eq(sel(pd.f['queue'].el.len, j), s.f['weights'].len)))
def gru(P):
    exs = []
    for name in ('output', 'backOutput', 'train'):
        ex = Ctx(P, 'GatedRecurrentUnit::' + name); exs.append(ex)
        o = ex.obj('gru', 'GatedRecurrentUnit'); s = ex.read(o)
        v = ex.obj('inputs', ('vec', ('real',))); t = ex.read(v)
        cnt = {g: ex.newroot('ghost:' + g, I(0)) for g in ('resetGate', 'updateGate', 'outputGate')}
        def gate(e, fn, this, a, n):
            if this.root != o.root or len(this.path) != 1: raise Unsupported('call on another object')
            c = cnt[this.path[0][1]]
            e.write(c, add(e.read(c), I(1)))
            if name == 'output':
                e.oblig('post', 'the gate gets the inputs', treeeq(e.read(a[0]), t), n)
                return V('gate of ' + this.path[0][1], 'Real')
            lv = LV(o.root, this.path + (('f', 'errors'),))
            return lv
        ex.contracts['RecurrentNeuron::' + ('output' if name == 'output' else 'backOutput')] = gate
        if name == 'output': ex.go(byparams(P, 'GatedRecurrentUnit::output', 2), o, (v, V('reset', 'Bool')))
        else:
            for g in cnt: ex.req(eq(s.f[g].f['errors'].len, s.f['numberOfInputs']))
            ex.req(le(I(1), s.f['numberOfInputs']))
            ex.go(byparams(P, 'GatedRecurrentUnit::' + name, 1), o, (V('error', 'Real'),))
        for g in cnt: ex.post('%s: the %s works once' % (name, g), eq(ex.read(cnt[g]), I(1)))
        for g in cnt: ex.post('%s: nothing else touches the memory of the %s' % (name, g), and_(*[treeeq(ex.read(o).f[g].f[x], s.f[g].f[x]) for x in ('lastInputs', 'previousDeltaWeights', 'weights')]))
    return exs
def ctor(P):
    exs = []
    for cls in ('SimpleNeuron', 'RecurrentNeuron', 'GatedRecurrentUnit'):
        ex = Ctx(P, 'construction of ' + cls); exs.append(ex)
        m = ex.obj('model', 'NeuronModel'); s = ex.read(m)
        ex.req(le(I(1), s.f['batchSize']), le(I(0), s.f['numberOfInputs']), le(I(1), s.f['numberOfWeights']))
        randoms(ex, '*::randomInitializeWeight'); activations(ex)
        o = ex.create('neuron', next(c for c in P.classes if c.split('::')[-1] == cls), byparams(P, '%s::%s' % (cls, cls), 2), (s, fresh('optimizer', 'Ref')))
        t = ex.read(o)
        for g, r in ([('', t)] if cls != 'GatedRecurrentUnit' else [(g, t.f[g]) for g in ('resetGate', 'updateGate', 'outputGate')]):
            for q, n in (('lastInputs', s.f['numberOfInputs']), ('previousDeltaWeights', s.f['numberOfWeights'])):
                c = r.f[q]
                ex.post('%s %s %s: one slot per position of a pass' % (cls, g, q), eq(c.f['queue'].len, s.f['batchSize']))
                ex.post('%s %s %s: positions at the start' % (cls, g, q), and_(eq(c.f['indexPush'], I(0)), eq(c.f['indexGet'], I(0))))
                ex.post('%s %s %s: zeros' % (cls, g, q), allin(s.f['batchSize'], lambda k: and_(eq(sel(c.f['queue'].el.len, k), n), allin(n, lambda i: eq(sel(sel(c.f['queue'].el.el, k), i), R(0))))))
            ex.post('%s %s: sizes' % (cls, g), and_(eq(r.f['weights'].len, s.f['numberOfWeights']), eq(r.f['errors'].len, s.f['numberOfInputs']), eq(r.f['batchSize'], s.f['batchSize']), eq(r.f['numberOfInputs'], s.f['numberOfInputs'])))
            ex.post('%s %s: bias' % (cls, g), eq(r.f['bias'], s.f['bias']))
    return exs
UNITS = [('pushBack', push), ('getBack', get), ('initialize', init), ('passes', passes), ('weight changes', age), ('simple neuron', neuron('SimpleNeuron')), ('recurrent neuron', neuron('RecurrentNeuron')), ('gated unit', gru), ('construction', ctor)]
