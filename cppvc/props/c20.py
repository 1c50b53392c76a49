from .common import *
from . import c27
ASSUME = ['rows and data sets have fewer than 2^31 entries']
PROBLEMS = ['classification', 'multipleClassification', 'regression']
def ctors(P, dim, n):
    """the constructor of Data from vectors of the given dimension"""
    c = P.classes[next(k for k in P.classes if k.split('::')[-1] == 'Data')]
    l = [f for m, q in P.qual.items() if fn_name(q) == 'Data::Data' and m in P.bodies for f in [P.bodies[m]] if len(f.params) == n]
    out = []
    for f in l:
        t = parse_type(P, f.params[1]['type']['qualType'].replace('&', '').strip()); d = 0
        while isinstance(t, tuple) and t[0] == 'vec': d += 1; t = t[1]
        if d == dim: out.append(f)
    if len(out) != 1: raise Unsupported('constructor of Data')
    return out[0]
def ragged(v, w): return exin(v.len, lambda i: not_(eq(sel(v.el.len, i), w)))
def rowbad(v, first): return ragged(v, sel(first.el.len, sub(first.len, I(1))))
def enum(P, e, v): return I(P.enums[(e, v)])
def make2(prob, nat, n):
    def u(P):
        ex = Ctx(P, 'constructor')
        ty = ('vec', ('vec', ('real',)))
        vs = [ex.obj(nm, ty) for nm in (('trainingInputs', 'trainingLabels', 'testingInputs', 'testingLabels') if n == 7 else ('inputs', 'labels'))]
        ti, tl, si, sl = [ex.read(v) for v in (vs if n == 7 else vs + vs)]
        rec = V('numberOfRecurrences')
        bad = or_(eq(ti.len, I(0)), eq(tl.len, I(0)), not_(eq(ti.len, tl.len)), not_(eq(si.len, sl.len)), *[rowbad(v, f) for v, f in ((ti, ti), (si, ti), (tl, tl), (sl, tl))])
        if prob == 'classification': bad = or_(bad, lt(sel(tl.el.len, I(0)), I(2)))
        if nat == 'timeSeries': bad = or_(bad, lt(rec, I(1)))
        lv = ex.newroot('data', ex.rawobj('Data'))
        ex.go(ctors(P, 2, n), lv, [enum(P, 'problem', prob)] + vs + [enum(P, 'nature', nat), rec], throws=bad, ctor=True)
        r = ex.read(lv)
        for nm, v in zip(('training inputs', 'training labels', 'testing inputs', 'testing labels'), vs if n == 7 else vs + vs): pass
        for k, i, l in ((1, ti, tl), (0, si, sl)):
            s = ex.read(lv.f('sets').i(I(k)))
            ex.post('the data are those given', and_(eq(s.f['size'], i.len), treeeq(s.f['inputs'], i), treeeq(s.f['labels'], l)))
        ex.post('training starts in the given order', and_(eq(ex.read(lv.f('sets').i(I(1))).f['shuffledIndexes'].len, ti.len), allin(ti.len, lambda i: eq(sel(ex.read(lv.f('sets').i(I(1))).f['shuffledIndexes'].el, i), i))))
        ex.post('sizes', and_(allin(ti.len, lambda i: eq(sel(ti.el.len, i), r.f['sizeOfData'])), allin(tl.len, lambda i: eq(sel(tl.el.len, i), r.f['numberOfLabels']))))
        return ex
    return u
def sequences(ex, name, t):
    """ghost: sequence and position of entry p of all sequences one after the other; off(a): where sequence a starts"""
    n, ln = t.len, t.el.len
    off = lambda k: sum_(k, lambda i: sel(ln, i))
    seq, pos = (lambda p: app('sequence:' + name, [p], 'Int')), (lambda p: app('position:' + name, [p], 'Int'))
    A1 = ex.axiom(forall(['Int', 'Int'], lambda a, p: implies(and_(inr(I(0), a, n), le(off(a), p), lt(p, add(off(a), sel(ln, a)))), and_(eq(seq(p), a), eq(pos(p), sub(p, off(a)))))))
    A2 = ex.axiom(forall(['Int'], lambda p: implies(inr(I(0), p, off(n)), and_(inr(I(0), seq(p), n), inr(I(0), pos(p), sel(ln, seq(p))), eq(p, add(off(seq(p)), pos(p)))))))
    g = ex.induction('offsets grow', lambda k: and_(le(I(0), off(k)), forall(['Int'], lambda a: implies(inr(I(0), a, k), le(add(off(a), sel(ln, a)), off(k))))), I(0), [f for f in ex.facts if f.op == 'forall' and occurs(ln, f)][:1])
    ex.post('offsets are not negative', le(I(0), off(n)), [g, le(I(0), n)])
    return off, seq, pos
def make3(prob, n):
    def u(P):
        ex = Ctx(P, 'constructor')
        t3, t2 = ('vec', ('vec', ('vec', ('real',)))), ('vec', ('vec', ('real',)))
        vs = [ex.obj(nm, t) for nm, t in ((('trainingInputs', t3), ('trainingLabels', t2), ('testingInputs', t3), ('testingLabels', t2)) if n == 7 else (('inputs', t3), ('labels', t2)))]
        ti, tl, si, sl = [ex.read(v) for v in (vs if n == 7 else vs + vs)]
        o1 = sequences(ex, 'training', ti); o2 = sequences(ex, 'testing', si) if n == 7 else o1
        e3 = lambda t: exin(t.len, lambda i: eq(sel(t.el.len, i), I(0)))
        first = sel(sel(ti.el.el.len, o1[1](sub(o1[0](ti.len), I(1)))), o1[2](sub(o1[0](ti.len), I(1))))
        def rag(t, w, o): return exin(o[0](t.len), lambda p: not_(eq(sel(sel(t.el.el.len, o[1](p)), o[2](p)), w)))
        bad = or_(eq(ti.len, I(0)), e3(ti), e3(si), eq(tl.len, I(0)), not_(eq(o1[0](ti.len), tl.len)), not_(eq(o2[0](si.len), sl.len)), rag(ti, first, o1), rag(si, first, o2), rowbad(tl, tl), rowbad(sl, tl))
        if prob == 'classification': bad = or_(bad, lt(sel(tl.el.len, I(0)), I(2)))
        def inv(e, L):
            out = []
            for k in L.unsolved:
                X = (lambda k: lambda tau: L.at(k, tau))(k)
                if k[1][-2:] == ('el', 'len'):
                    for t, o in ((ti, o1), (si, o2)):
                        for k in (0, 1): out.append(('rows of the sequences one after the other', lambda tau, X=X, t=t, o=o, k=k: allin(o[0](tau), lambda p: eq(sel(sel(X(tau), I(k)), p), sel(sel(t.el.el.len, o[1](p)), o[2](p)))), 'try'))
            return out
        ex.cands.append(inv)
        lv = ex.newroot('data', ex.rawobj('Data'))
        ex.go(ctors(P, 3, n), lv, [enum(P, 'problem', prob)] + vs + [enum(P, 'nature', 'sequential'), V('numberOfRecurrences')], throws=bad, ctor=True)
        return ex
    return u
def needsequential(P):
    exs = []
    for nat in ('nonTemporal', 'timeSeries'):
        for n in (7, 5):
            ex = Ctx(P, 'constructor ' + nat); exs.append(ex)
            t3, t2 = ('vec', ('vec', ('vec', ('real',)))), ('vec', ('vec', ('real',)))
            vs = [ex.obj(nm, t) for nm, t in ((('trainingInputs', t3), ('trainingLabels', t2), ('testingInputs', t3), ('testingLabels', t2)) if n == 7 else (('inputs', t3), ('labels', t2)))]
            lv = ex.newroot('data', ex.rawobj('Data'))
            res = ex.run(ctors(P, 3, n), lv, [V('problem')] + vs + [enum(P, 'nature', nat), V('numberOfRecurrences')], ctor=True)
            ex.post('sequences for other data are refused', B(all(o.thrown for o in res)))
    return exs
def training(fn):
    """train and startTrainingAsync: refused exactly when the data does not fit, and then nothing was done"""
    def u(P):
        ex = Ctx(P, fn)
        net = ex.obj('net', 'StraightforwardNeuralNetwork'); data = ex.obj('data', 'Data'); s, d = ex.read(net), ex.read(data)
        b, ni, no = V('batchSize'), V('number of inputs'), V('number of outputs')
        for nm, v in (('getNumberOfInputs', ni), ('getNumberOfOutputs', no)): ex.contracts['NeuralNetwork::' + nm] = (lambda v: lambda e, f, this, a, n: v)(v)
        done = ex.newroot('ghost:trainings', I(0))
        def trainsync(e, f, this, a, n):
            e.oblig('post', 'the data and the batch size are those given', and_(B(this.same(net) and isinstance(a[0], LV) and a[0].same(data)), eq(e.val(a[2]), b)), n)
            e.write(done, add(e.read(done), I(1)))
        ex.contracts['StraightforwardNeuralNetwork::trainSync'] = trainsync
        stop = ex.newroot('ghost:stops', I(0))
        ex.contracts['StraightforwardNeuralNetwork::stopTrainingAsync'] = lambda e, f, this, a, n: e.write(stop, add(e.read(stop), I(1)))
        size = ex.read(data.f('sets').i(I(1))).f['size']
        bad = or_(not_(eq(d.f['numberOfLabels'], no)), not_(eq(d.f['sizeOfData'], ni)), lt(b, I(1)), lt(size, b), and_(not_(eq(b, I(1))), not_(eq(d.f['typeOfTemporal'], enum(P, 'nature', 'nonTemporal')))))
        if fn == 'train': bad = or_(bad, not_(s.f['isIdle']))
        w = ex.obj('wait', 'Wait')
        norm = False
        for o in ex.run(P.find('StraightforwardNeuralNetwork::' + fn), net, [data, w, b, V('evaluationFrequency')] if fn == 'train' else [data, b, V('evaluationFrequency')]):
            ex.S = o.st
            if o.thrown is None:
                norm = True
                ex.post('no training of data that does not fit', not_(bad))
                if fn == 'train': ex.post('data that fits is trained', eq(ex.read(done), I(1)))
            else:
                ex.post('only data that does not fit is refused (%s)' % o.thrown, bad)
                ex.post('nothing is trained when it is refused', eq(ex.read(done), I(0)))
                ex.post('a refused training does not touch the network or a running training', and_(treeeq(ex.read(net), s), eq(ex.read(stop), I(0))))
                ex.post('a refused training does not touch the data', treeeq(ex.read(data), d))
        ex.post('some data is trained', B(norm))
        return ex
    return u
TRAIN = [('train', training('train')), ('startTrainingAsync', training('startTrainingAsync'))]
UNITS = [('data %s %s %s' % (p, t, 'with test set' if n == 7 else 'alone'), make2(p, t, n)) for p in PROBLEMS for t in ('nonTemporal', 'timeSeries') for n in (7, 5)] + [('sequences only for sequential data', needsequential)] + TRAIN
