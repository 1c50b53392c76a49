from .common import *
ASSUME = ['whether training goes on (stop request, limits, invalid outputs) is unknown each time it is asked', 'the order of the data is that of the data set after the shuffle of the epoch (its contract: C17; the contents of a batch: C16)']
def trees(P, name, ty): return lambda *a: V
class World:
    """what the training loop sees: a network, data and contracts of the functions it calls; ghost state: the next batch that is due in this epoch"""
    def __init__(self, P, unit):
        ex = self.ex = Ctx(P, unit)
        self.net = ex.obj('net', 'StraightforwardNeuralNetwork'); self.data = ex.obj('data', 'Data'); self.wait = ex.obj('wait', 'Wait')
        self.b, self.freq = V('batchSize'), V('evaluationFrequency')
        self.s = ex.read(self.net)
        g = lambda nm, v: ex.newroot('ghost:' + nm, v)
        self.due, self.shuffles, self.cut, self.asked = g('due', I(0)), g('shuffles', I(0)), g('interrupted', FALSE), g('asked', I(0))
        ex.contracts['StraightforwardNeuralNetwork::continueTraining'] = lambda e, f, this, a, n: self.ask(e, 'goes on', not_)
        ex.contracts['NeuralNetwork::hasNan'] = lambda e, f, this, a, n: self.ask(e, 'has nan', lambda x: x)
    def ask(self, e, what, stops):
        k = e.read(self.asked); e.write(self.asked, add(k, I(1)))
        r = app(what, [k], 'Bool'); e.write(self.cut, or_(e.read(self.cut), stops(r))); return r
def vec(name, *a): return Ve(app('len of ' + name, a, 'Int'), app(name, a, ('Int', 'Real')))
def trainsync(P):
    w = World(P, 'trainSync'); ex = w.ex; b = w.b
    size = ex.read(w.data.f('sets').i(I(1))).f['size']
    ex.req(le(I(1), b), le(b, size))
    k = lambda e: e.read(w.shuffles)
    for nm in ('getTrainingData', 'getTrainingOutputs'):
        ex.contracts['Data::' + nm] = (lambda nm: lambda e, f, this, a, n: vec(nm, k(e), *[e.val(x) for x in a]))(nm)
    for nm in ('needToLearnOnTrainingData', 'isFirstTrainingDataOfTemporalSequence'):
        ex.contracts['Data::' + nm] = (lambda nm: lambda e, f, this, a, n: app(nm, [k(e), e.val(a[0])], 'Bool'))(nm)
    def shuffle(e, f, this, a, n):
        e.oblig('post', 'the data is shuffled', B(this.same(w.data)), n)
        e.oblig('post', 'an epoch is complete before the next one starts', or_(eq(k(e), I(0)), e.read(w.cut), lt(size, add(e.read(w.due), b))), n)
        e.write(w.shuffles, add(k(e), I(1))); e.write(w.due, I(0)); e.write(w.cut, FALSE)
    ex.contracts['Data::shuffle'] = shuffle
    def step(learns):
        def c(e, f, this, a, n):
            i = e.read(w.due)
            e.oblig('post', 'a batch is read within the training set', le(add(i, b), size), n)
            e.oblig('post', 'a step is part of an epoch that was shuffled', lt(I(0), k(e)), n)
            e.oblig('post', 'the inputs are those of the batch that is due', treeeq(e.val(a[0]), vec('getTrainingData', k(e), i, b)), n)
            if learns: e.oblig('post', 'the expected outputs are those of the batch that is due', treeeq(e.val(a[1]), vec('getTrainingOutputs', k(e), i, b)), n)
            e.oblig('post', 'the reset flag is that of the batch that is due', eq(e.val(a[-1]), app('isFirstTrainingDataOfTemporalSequence', [k(e), i], 'Bool')), n)
            e.oblig('post', 'data is learned only when it is flagged for learning' if learns else 'data that is flagged for learning is learned', eq(app('needToLearnOnTrainingData', [k(e), i], 'Bool'), B(learns)), n)
            e.write(w.due, add(i, b))
            return vec('outputs', k(e), i)
        return c
    ex.contracts['NeuralNetwork::trainOnce'] = step(True); ex.contracts['NeuralNetwork::outputForTraining'] = step(False)
    evs = ex.newroot('ghost:evaluations', I(0))
    def evaluate(e, f, this, a, n):
        e.oblig('post', 'the test set of the data is evaluated', B(isinstance(a[0], LV) and a[0].same(w.data)), n)
        e.oblig('post', 'an evaluation is between two epochs', or_(eq(k(e), I(0)), e.read(w.cut), lt(size, add(e.read(w.due), b))), n)
        c = e.read(evs); e.write(evs, add(c, I(1)))
        e.write(this.f('index'), app('index after evaluation', [c], 'Int'))
        e.write(this.f('isIdle'), app('idle after evaluation', [c], 'Bool'))
    ex.contracts['StraightforwardNeuralNetwork::evaluate'] = evaluate
    for o in ex.run(P.find('StraightforwardNeuralNetwork::trainSync'), w.net, [w.data, w.wait, b, w.freq]):
        ex.S = o.st
        ex.post('no exception', B(o.thrown is None))
        r = ex.read(w.net)
        ex.post('the network is idle when training ends', r.f['isIdle'])
        ex.post('the index is back at zero', eq(r.f['index'], I(0)))
        ex.post('training ends only when it was interrupted or an epoch is complete', or_(ex.read(w.cut), lt(size, add(ex.read(w.due), b))), list(ex.S.pc))
    return ex
def goeson(P):
    """training goes on exactly while nobody asked to stop, the limits are not reached and the outputs are valid"""
    ex = Ctx(P, 'continueTraining'); o = ex.obj('net', 'StraightforwardNeuralNetwork'); w = ex.obj('wait', 'Wait'); s, wt = ex.read(o), ex.read(w)
    def over(e, f, this, a, n):
        # contract of Wait::isOver (C15)
        e.oblig('post', 'the limits are compared with the current epoch, accuracy and error', and_(eq(e.val(a[0]), s.f['epoch']), eq(e.val(a[1]), s.f['globalClusteringRate']), eq(e.val(a[2]), s.f['meanAbsoluteError'])), n)
        e.oblig('post', 'the limits are those of the caller', treeeq(e.read(this), wt), n)
        return V('over', 'Bool')
    ex.contracts['Wait::isOver'] = over
    r = ex.go(P.find('StraightforwardNeuralNetwork::continueTraining'), o, (wt,))
    ex.post('training goes on while it was not stopped, is not over and the outputs are valid', iff(r, and_(not_(s.f['wantToStopTraining']), not_(V('over', 'Bool')), not_(s.f['outputNan']))))
    unchanged(ex, 'asking', o, s)
    return ex
def step(P):
    """one training step: a forward pass for training, then, unless the outputs are invalid, the errors go back once; data that is only seen changes no weight (C10: outputForTraining of layers and network)"""
    exs = []
    for nan in (False, True):
        ex = Ctx(P, 'trainOnce'); exs.append(ex)
        o = ex.obj('net', 'NeuralNetwork'); v = ex.obj('inputs', ('vec', ('real',))); d = ex.obj('desired', ('vec', ('real',))); s, t, dt = ex.read(o), ex.read(v), ex.read(d)
        n = s.f['layers'].len; ex.req(le(I(1), n), not_(s.f['outputNan'])); reset = V('reset', 'Bool')
        ahead = ex.newroot('ghost:ahead', I(0)); back = ex.newroot('ghost:back', I(0)); N = V('outputs'); ex.req(le(I(0), N), eq(dt.len, N))
        ex.contracts['NeuralNetwork::getNumberOfOutputs'] = lambda e, f, this, a, nd: N
        def forward(e, f, this, a, nd, ex=ex, s=s, t=t, ahead=ahead, nan=nan, reset=reset):
            e.oblig('post', 'one forward pass, on the inputs of this step', and_(eq(e.read(ahead), I(0)), treeeq(e.read(a[0]), t), eq(e.val(a[1]), reset)), nd)
            e.write(ahead, I(1)); e.write(this.f('outputNan'), B(nan))
            return Ve(N, V('outputs of the pass', ('A', 'Real')))
        ex.contracts['NeuralNetwork::outputForTraining'] = forward
        def bw(e, f, lv, a, nd, s=s, n=n, ahead=ahead, back=back, nan=nan):
            k = e.read(back)
            e.oblig('post', 'no weights change when the outputs are invalid', B(not nan), nd)
            e.oblig('post', 'layers work backwards, after the forward pass', and_(eq(e.read(ahead), I(1)), eq(e.read(lv), sel(s.f['layers'].el, sub(sub(n, I(1)), k)))), nd)
            x = e.read(a[0])
            e.oblig('post', 'the errors are those the layer behind returned', and_(implies(eq(k, I(0)), and_(eq(x.len, N), allin(N, lambda i: eq(sel(x.el, i), mul(R(2), sub(sel(dt.el, i), sel(V('outputs of the pass', ('A', 'Real')), i))))))), implies(lt(I(0), k), and_(eq(x.len, app('len of errors', [k], 'Int')), leafeq(x.el, app('errors', [k], ('A', 'Real')))))), nd)
            e.write(back, add(k, I(1)))
            return Ve(app('len of errors', [add(k, I(1))], 'Int'), app('errors', [add(k, I(1))], ('A', 'Real')))
        ex.contracts['obj:backOutput'] = ex.contracts['obj:train'] = bw
        ex.facts.append(forall(['Int'], lambda k: le(I(0), app('len of errors', [k], 'Int'))))
        ex.go(P.find('NeuralNetwork::trainOnce'), o, (v, d, reset))
        ex.post('every layer learned once, or none', eq(ex.read(back), I(0) if nan else n))
        ex.post('one training is counted', eq(ex.read(o).f['numberOfTraining'], add(s.f['numberOfTraining'], I(1))))
        unchanged(ex, 'trainOnce', o, s, but=('numberOfTraining', 'outputNan'))
    return exs
from .c10 import network as forwards, layer as weights
from .c27 import LAYERS
UNITS = [('trainSync', trainsync), ('continueTraining', goeson), ('trainOnce', step), ('data that is only seen', forwards)] + [('weights of ' + c, weights(c)) for c in LAYERS]
