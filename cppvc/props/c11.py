from .common import *
from . import c27
ASSUME = ['outputs and errors are mathematical reals', 'uniform_real_distribution(0, 1) draws numbers in [0, 1) (nothing else is assumed about them)']
def draws(ex):
    """contract of the random source: draw number k is some number in [0, 1)"""
    c = ex.newroot('ghost:draws', I(0))
    d = lambda k: app('draw', [k], 'Real')
    ex.facts.append(forall(['Int'], lambda k: and_(le(R(0), d(k)), lt(d(k), R(1)))))
    def draw(e, fn, this, args, n):
        k = e.read(c); e.write(c, add(k, I(1)))
        return d(k)
    ex.contracts['std:operator()'] = draw
    return c, d
def drop(ex):
    o = ex.obj('dropout', 'Dropout'); s = ex.read(o)
    # invariant of the class: established by both constructors, kept by all functions
    ex.req(eq(s.f['reverseValue'], sub(R(1), s.f['value'])), le(R(0), s.f['value']), lt(s.f['value'], R(1)))
    return o, s
def training(P):
    ex = Ctx(P, 'training')
    o, s = drop(ex); v = ex.obj('outputs', ('vec', ('real',))); x = ex.read(v); rst = V('reset', 'Bool')
    c, d = draws(ex)
    ex.go(c27.pick(P, 'Dropout', 'applyAfterOutputForTraining'), o, (v, rst))
    r, n = ex.read(v), ex.read(o); keep = n.f['presenceProbabilities']
    redraw = or_(rst, not_(eq(s.f['presenceProbabilities'].len, x.len)))
    ex.post('one decision per output', and_(eq(r.len, x.len), eq(keep.len, x.len)))
    ex.post('every output is kept unchanged or silenced, as decided', allin(x.len, lambda i: eq(sel(r.el, i), ite(sel(keep.el, i), sel(x.el, i), R(0)))))
    ex.post('without a reset the same outputs are kept as before', implies(not_(redraw), allin(x.len, lambda i: iff(sel(keep.el, i), sel(s.f['presenceProbabilities'].el, i)))))
    ex.post('on a reset every output gets its own draw', implies(redraw, and_(eq(ex.read(c), x.len), allin(x.len, lambda i: iff(sel(keep.el, i), le(s.f['value'], d(i)))))))
    ex.post('nothing is drawn without a reset', implies(not_(redraw), eq(ex.read(c), I(0))))
    ex.post('a rate of zero keeps everything that is drawn', implies(and_(redraw, eq(s.f['value'], R(0))), allin(x.len, lambda i: eq(sel(r.el, i), sel(x.el, i)))))
    unchanged(ex, 'training', o, s, but=('presenceProbabilities', 'dist'))
    return ex
def back(P):
    ex = Ctx(P, 'errors')
    o, s = drop(ex); v = ex.obj('errors', ('vec', ('real',))); x = ex.read(v); keep = s.f['presenceProbabilities']
    ex.req(eq(keep.len, x.len))
    ex.go(c27.pick(P, 'Dropout', 'applyBeforeBackpropagation'), o, (v,))
    r = ex.read(v)
    ex.post('the number of errors stays', eq(r.len, x.len))
    ex.post('the error of an output is kept exactly when the output was', allin(x.len, lambda i: eq(sel(r.el, i), ite(sel(keep.el, i), sel(x.el, i), R(0)))))
    unchanged(ex, 'backpropagation', o, s)
    return ex
def testing(P):
    ex = Ctx(P, 'inference')
    o, s = drop(ex); v = ex.obj('outputs', ('vec', ('real',))); x = ex.read(v)
    ex.go(c27.pick(P, 'Dropout', 'applyAfterOutputForTesting'), o, (v,))
    r = ex.read(v)
    ex.post('the number of outputs stays', eq(r.len, x.len))
    ex.post('every output is multiplied by one minus the rate', allin(x.len, lambda i: eq(sel(r.el, i), mul(sel(x.el, i), sub(R(1), s.f['value'])))))
    unchanged(ex, 'inference', o, s)
    return ex
def make(P):
    ex = Ctx(P, 'constructor')
    val = V('rate', 'Real'); N = V('neurons'); ex.req(le(R(0), val), lt(val, R(1)), le(I(0), N))
    lay = ex.obj('layer', 'FullyConnected')
    c, d = draws(ex)
    ex.contracts['obj:getNumberOfNeurons'] = ex.contracts['ref:getNumberOfNeurons'] = ex.contracts['*::getNumberOfNeurons'] = lambda *a: N
    fn = [P.bodies[m] for m, q in P.qual.items() if fn_name(q) == 'Dropout::Dropout' and m in P.bodies and len(P.bodies[m].params) == 2]
    first = next(f for f in fn if 'float' in f.type); copy = next(f for f in fn if 'float' not in f.type.split(',')[0])
    lv = ex.newroot('made', ex.rawobj('Dropout'))
    ex.go(first, lv, (val, Ptr(lay)), ctor=True)
    r = ex.read(lv); keep = r.f['presenceProbabilities']
    ex.post('the rate is the given one', and_(eq(r.f['value'], val), eq(r.f['reverseValue'], sub(R(1), val))))
    ex.post('every neuron gets its own draw', and_(eq(keep.len, N), allin(N, lambda i: iff(sel(keep.el, i), le(val, d(i))))))
    ex.post('a rate of zero keeps everything', implies(eq(val, R(0)), allin(N, lambda i: sel(keep.el, i))))
    ex.post('for the given layer', B(isinstance(r.f['layer'], Ptr) and r.f['layer'].lv.same(lay) or ex.ptrs.get(r.f['layer']) is not None and ex.ptrs[r.f['layer']].same(lay)))
    ex2 = Ctx(P, 'copy')
    o, s = drop(ex2); l2 = ex2.obj('layer2', 'FullyConnected')
    lv = ex2.newroot('made', ex2.rawobj('Dropout'))
    ex2.go(copy, lv, (o, Ptr(l2)), ctor=True)
    r = ex2.read(lv)
    ex2.post('a copy has the same rate', and_(eq(r.f['value'], s.f['value']), eq(r.f['reverseValue'], sub(R(1), s.f['value']))))
    ex2.post('a copy keeps the same outputs', samevec(r.f['presenceProbabilities'], s.f['presenceProbabilities']))
    ex2.post('the original is not changed', treeeq(ex2.read(o), s))
    return [ex, ex2]
UNITS = [('training', training), ('errors', back), ('inference', testing), ('constructors', make)] + \
        [('optimizers of ' + c, c27.apply(c)) for c in c27.LAYERS]
