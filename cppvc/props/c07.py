from .common import *
from .c08 import wrap, reqs, age
ASSUME = ['rates, momenta, errors, inputs and weights are mathematical reals']
def setup(P, name, cls):
    ex = Ctx(P, name)
    opt = ex.obj('sgd', 'StochasticGradientDescent'); o = ex.obj('neuron', cls); s = ex.read(o)
    reqs(ex, s, cls); activations(ex)
    return ex, opt, o, s
def step(ex, opt, s, err):
    """the change of weight w"""
    r, m = ex.read(opt).f['learningRate'], ex.read(opt).f['momentum']
    li, pd, nI = s.f['lastInputs'], s.f['previousDeltaWeights'], s.f['numberOfInputs']
    x = lambda w: ite(lt(w, nI), sel(sel(li.f['queue'].el.el, wrap(li.f['indexGet'], li.f['queue'].len)), w), s.f['bias'])
    d = lambda w: sel(sel(pd.f['queue'].el.el, wrap(pd.f['indexGet'], pd.f['queue'].len)), w)
    return lambda w: add(mul(mul(rdiv(r, toreal(s.f['batchSize'])), err), x(w)), mul(m, d(w)))
def update(cls):
    def u(P):
        ex, opt, o, s = setup(P, 'updateWeights', cls); so = ex.read(opt)
        err = V('error', 'Real'); nI = s.f['numberOfInputs']
        d = step(ex, opt, s, err)
        ex.go(byparams(P, 'StochasticGradientDescent::updateWeights', 2, cls), opt, (o, err))
        t = ex.read(o)
        n = add(nI, I(1)) if cls == 'SimpleNeuron' else nI
        what = 'every weight' if cls == 'SimpleNeuron' else 'every input weight'
        pd, pn = s.f['previousDeltaWeights'], t.f['previousDeltaWeights']
        slot = wrap(pd.f['indexPush'], pd.f['queue'].len)
        # one weight at a time: an input weight, the last one
        w = V('w'); s0 = ex.S
        ex.S = s0.fork(inr(I(0), w, nI))
        ex.post('%s changes by its momentum gradient step' % what, eq(sel(t.f['weights'].el, w), add(sel(s.f['weights'].el, w), d(w))))
        ex.post('the change of %s is remembered' % what, eq(sel(sel(pn.f['queue'].el.el, slot), w), d(w)))
        ex.S = s0
        if cls == 'SimpleNeuron':
            ex.post('the last weight takes its step with the bias', eq(sel(t.f['weights'].el, nI), add(sel(s.f['weights'].el, nI), d(nI))))
            ex.post('the change of the last weight is remembered', eq(sel(sel(pn.f['queue'].el.el, slot), nI), d(nI)))
        ex.post('the number of weights stays', eq(t.f['weights'].len, s.f['weights'].len))
        ex.post('as many changes as weights are remembered', eq(sel(pn.f['queue'].el.len, slot), s.f['weights'].len))
        ex.post('the other remembered changes stay', and_(eq(pn.f['queue'].len, pd.f['queue'].len), allin(pd.f['queue'].len, lambda k: implies(ne(k, slot), and_(*[eq(sel(a, k), sel(b, k)) for (_, a), (_, b) in zip(leaves(pn.f['queue'].el), leaves(pd.f['queue'].el))])))))
        ex.post('the stored inputs stay', and_(treeeq(t.f['lastInputs'].f['queue'], s.f['lastInputs'].f['queue']), eq(t.f['lastInputs'].f['indexPush'], s.f['lastInputs'].f['indexPush'])))
        unchanged(ex, 'an update', o, s, but=('weights', 'previousDeltaWeights', 'lastInputs') + (('recurrentError',) if cls == 'RecurrentNeuron' else ()))
        unchanged(ex, 'an update', opt, so)
        return ex
    return u
def still(cls):
    def u(P):
        ex, opt, o, s = setup(P, 'rate zero', cls)
        ex.req(eq(ex.read(opt).f['learningRate'], R(0)), eq(ex.read(opt).f['momentum'], R(0)))
        ex.go(byparams(P, 'StochasticGradientDescent::updateWeights', 2, cls), opt, (o, V('error', 'Real')))
        t = ex.read(o); w = V('w')
        ex.req(inr(I(0), w, s.f['weights'].len))
        ex.post('no weight changes', eq(sel(t.f['weights'].el, w), sel(s.f['weights'].el, w)))
        return ex
    return u
def neuron(cls):
    """backOutput and train hand the error of the neuron times the derivative at its last sum to its own optimizer, once"""
    def u(P):
        exs = []
        for name in ('backOutput', 'train'):
            ex = Ctx(P, '%s::%s' % (cls, name)); exs.append(ex)
            o = ex.obj('neuron', cls); s = ex.read(o); activations(ex)
            ex.req(eq(s.f['weights'].len, add(s.f['errors'].len, I(2 if cls == 'RecurrentNeuron' else 1))), eq(s.f['errors'].len, s.f['numberOfInputs']))
            cnt = ex.newroot('ghost:updates', I(0)); err = V('error', 'Real')
            def upd(e, fn, ref, a, n, o=o, s=s, cnt=cnt):
                e.oblig('post', 'its own optimizer updates this neuron', and_(eq(ref, s.f['optimizer']), B(a[0].same(o))), n)
                e.oblig('post', 'with the error times the derivative at the last sum', eq(e.val(a[1]), mul(err, app('activation.derivative', [s.f['sum']], 'Real'))), n)
                e.oblig('post', 'while the weights are those of the forward pass', treeeq(e.read(o).f['weights'], s.f['weights']), n)
                e.write(cnt, add(e.read(cnt), I(1)))
            ex.contracts['ref:updateWeights'] = upd
            ex.go(byparams(P, '%s::%s' % (cls, name), 1), o, (err,))
            ex.post('one update', eq(ex.read(cnt), I(1)))
            unchanged(ex, name, o, s, but=('errors',))
        return exs
    return u
def optimizer(P):
    """the rates a user asked for are the rates used"""
    ex = Ctx(P, 'optimizer'); r, m = V('rate', 'Real'), V('momentum', 'Real')
    f = [P.bodies[k] for k, q in P.qual.items() if k in P.bodies and fn_name(q).split('::')[-1] == 'StochasticGradientDescent' and 'NeuralNetworkOptimizerModel' in P.bodies[k].type]
    if len(f) != 1: raise Unsupported('snn::StochasticGradientDescent')
    mt = ex.go(f[0], None, (r, m))
    ex.post('the model carries both', and_(eq(mt.f['learningRate'], r), eq(mt.f['momentum'], m)))
    x = ex.go(byparams(P, 'NeuralNetworkOptimizerFactory::build', 1), None, (mt,))
    if x not in ex.shared_objects: raise Unsupported('optimizer object')
    o = ex.shared_objects[x]
    ex.post('the optimizer uses both', and_(B(o.cls.split('::')[-1] == 'StochasticGradientDescent'), eq(o.f['learningRate'], r), eq(o.f['momentum'], m)))
    return ex
UNITS = [('simple neuron', update('SimpleNeuron')), ('recurrent neuron', update('RecurrentNeuron')), ('simple neuron at rate zero', still('SimpleNeuron')), ('recurrent neuron at rate zero', still('RecurrentNeuron')),
         ('simple neuron: caller', neuron('SimpleNeuron')), ('recurrent neuron: caller', neuron('RecurrentNeuron')), ('changes b updates earlier', age), ('optimizer', optimizer)]
