from .common import *
from .c27 import virtual
ASSUME = ['ranges::shuffle permutes its range (any permutation)']
def setup(P, cls):
    ex = Ctx(P, cls)
    o = ex.obj('composite', cls); sets = ex.obj('data.sets', ('vec', ('cls', 'Set'), 2)); ex.ptrs = {ex.read(o).f['sets']: sets.i(I(0))}
    T_ = sets.i(I(1)); s, S, t = ex.read(o), ex.read(sets), ex.read(T_); n = t.f['size']
    ex.req(le(I(1), n), eq(t.f['shuffledIndexes'].len, n))
    return ex, o, T_, sets, s, S, t, n
def LVof(T_): return LV(T_.root, T_.path[:-1])
def order(x, n):
    """x(i) for i < n: every number below n, each once"""
    return [allin(n, lambda i: inr(I(0), x(i), n)), allin2(n, n, lambda i, j: implies(eq(x(i), x(j)), eq(i, j))), allin(n, lambda v: exin(n, lambda i: eq(x(i), v)))]
def rest(ex, what, sets, S, T_, t, but):
    """nothing but the fields in but of the training set changes"""
    unchanged(ex, what, T_, t, but=but)
    new = ex.read(sets.i(I(0))); old = tsel(S.el, I(0))
    ex.post('%s leaves the testing set alone' % what, treeeq(new, old))
def nontemporal(P):
    ex, o, T_, sets, s, S, t, n = setup(P, 'CompositeForNonTemporalData')
    x = t.f['shuffledIndexes'].el
    inv = V('position of', ('A', 'Int'))      # the earlier order is one of all entries
    ex.req(allin(n, lambda i: and_(inr(I(0), sel(x, i), n), eq(sel(inv, sel(x, i)), i))), allin(n, lambda v: and_(inr(I(0), sel(inv, v), n), eq(sel(x, sel(inv, v)), v))))
    ex.go(virtual(P, 'CompositeForNonTemporalData', 'shuffle'), o, ())
    y = ex.read(T_).f['shuffledIndexes']
    ex.post('as many entries as data', eq(y.len, n))
    a, b, c = order(lambda i: sel(y.el, i), n)
    ex.post('every entry is a datum', a); ex.post('no datum is doubled', b)
    Pm, Q, _ = ex.last_perm
    # the position of datum v after the shuffle
    pos = lambda v: Q(sel(inv, v))
    v = V('datum'); ex.req(inr(I(0), v, n))
    w = ex.post('where a datum is after the shuffle', and_(inr(I(0), pos(v), n), eq(sel(y.el, pos(v)), v)))
    ex.post('no datum is lost', exin(n, lambda i: eq(sel(y.el, i), v)), [w])
    rest(ex, 'shuffling', sets, S, T_, t, ('shuffledIndexes',)); unchanged(ex, 'shuffling', o, s)
    k = V('index')
    for nm, r in (('isFirstTrainingDataOfTemporalSequence', TRUE), ('needToTrainOnTrainingData', TRUE)): ex.post(nm, iff(ex.go(virtual(P, 'CompositeForNonTemporalData', nm), o, (k,)), r))
    return ex
def unshuffle(cls):
    def u(P):
        ex, o, T_, sets, s, S, t, n = setup(P, cls)
        ex.go(virtual(P, cls, 'unshuffle'), o, ())
        y = ex.read(T_)
        ex.post('the original order', and_(eq(y.f['shuffledIndexes'].len, n), allin(n, lambda i: eq(sel(y.f['shuffledIndexes'].el, i), i))))
        but = ('shuffledIndexes',)
        if cls == 'CompositeForTimeSeries':
            but += ('needToTrainOnData', 'areFirstDataOfTemporalSequence')
            tr, fi = y.f['needToTrainOnData'], y.f['areFirstDataOfTemporalSequence']
            ex.post('all data is trained on, in one sequence', and_(eq(tr.len, n), eq(fi.len, n), allin(n, lambda i: and_(sel(tr.el, i), iff(sel(fi.el, i), eq(i, I(0)))))))
        rest(ex, 'unshuffling', sets, S, T_, t, but); unchanged(ex, 'unshuffling', o, s)
        return ex
    return u
def sequential(P):
    exs = []
    ex = Ctx(P, 'constructor'); exs.append(ex)
    sets = ex.obj('data.sets', ('vec', ('cls', 'Set'), 2)); T_ = sets.i(I(1)); S, t = ex.read(sets), ex.read(T_); n = t.f['size']
    ex.req(le(I(1), n), eq(t.f['areFirstDataOfTemporalSequence'].len, n))
    lv = ex.newroot('composite', ex.rawobj('CompositeForTemporalData'))
    ex.go(byparams(P, 'CompositeForTemporalData::CompositeForTemporalData', 1, 'Set'), lv, (Ptr(sets.i(I(0))),), ctor=True)
    ex.post('no sequence is moved', eq(ex.read(lv).f['indexesForShuffles'].len, I(0)))
    ex.post('the sets are left alone', treeeq(ex.read(sets), S))
    ex, o, T_, sets, s, S, t, n = setup(P, 'CompositeForTemporalData'); exs.append(ex)
    ex.write(o.f('indexesForShuffles'), Ve(I(0), s.f['indexesForShuffles'].el)); s = ex.read(o)      # class invariant, from the constructor: no sequence is moved
    ex.go(virtual(P, 'CompositeForTemporalData', 'shuffle'), o, ())
    ex.post('the order stays', treeeq(ex.read(T_).f['shuffledIndexes'], t.f['shuffledIndexes']))
    ex.post('no sequence is moved later', eq(ex.read(o).f['indexesForShuffles'].len, I(0)))
    rest(ex, 'shuffling', sets, S, T_, t, ())
    k = V('index'); fi = t.f['areFirstDataOfTemporalSequence']; ex.req(eq(fi.len, n), inr(I(0), k, n))
    ex.post('a datum starts a sequence as flagged', iff(ex.go(virtual(P, 'CompositeForTemporalData', 'isFirstTrainingDataOfTemporalSequence'), o, (k,)), sel(fi.el, k)))
    ex.post('all data is trained on', ex.go(virtual(P, 'CompositeForTemporalData', 'needToTrainOnTrainingData'), o, (k,)))
    return exs
def listed(D, l, where):
    return allin(D, lambda v: and_(inr(I(0), where(v), D), eq(sel(l, where(v)), v)))
def seriesinv(s, t, n):
    """class invariant of the composite for time series: established by the constructor, kept by shuffle and unshuffle"""
    R, x, l = s.f['numberOfRecurrences'], t.f['shuffledIndexes'], s.f['indexesForShuffling']
    W = add(R, I(1)); D = s.f['divide']
    return {'at least one recurrence': le(I(1), R), 'windows': and_(le(I(0), D), le(mul(D, W), n), lt(n, add(mul(D, W), W))), 'rest': eq(s.f['rest'], sub(n, mul(D, W))),
            'offset': inr(I(0), s.f['offset'], W), 'sizes': and_(eq(x.len, n), eq(t.f['needToTrainOnData'].len, n), eq(t.f['areFirstDataOfTemporalSequence'].len, n), eq(l.len, D)),
            'entries are data': allin(n, lambda i: inr(I(0), sel(x.el, i), n)), 'windows are windows': allin(D, lambda i: inr(I(0), sel(l.el, i), D)),
            'windows differ': allin2(D, D, lambda i, j: implies(eq(sel(l.el, i), sel(l.el, j)), eq(i, j)))}
def short(P):
    """fewer data than a window"""
    ex, o, T_, sets, s, S, t, n = setup(P, 'CompositeForTimeSeries')
    R, of = s.f['numberOfRecurrences'], s.f['offset']; ex.req(lt(n, add(R, I(1))))
    ex.write(o.f('indexesForShuffling'), Ve(I(0), s.f['indexesForShuffling'].el)); ex.write(o.f('divide'), I(0)); s = ex.read(o)
    ex.req(*seriesinv(s, t, n).values())
    ex.go(virtual(P, 'CompositeForTimeSeries', 'shuffle'), o, ())
    ends(ex, o, T_, s, S, t, n, {}, lambda p: p)
    return ex
def series(P):
    ex, o, T_, sets, s, S, t, n = setup(P, 'CompositeForTimeSeries')
    ex.req(le(add(s.f['numberOfRecurrences'], I(1)), n), le(I(1), s.f['divide']))
    few1 = le(I(1), s.f['divide'])
    R, of, D, l = s.f['numberOfRecurrences'], s.f['offset'], s.f['divide'], s.f['indexesForShuffling']; W = add(R, I(1))
    ex.write(o.f('indexesForShuffling'), Ve(D, l.el)); s = ex.read(o); H = seriesinv(s, t, n)
    # all windows are listed: where window v is
    where = V('where', ('A', 'Int')); H['all windows'] = listed(D, l.el, lambda v: sel(where, v))
    ex.req(*H.values())
    Pm, Qm = (lambda i: app('shuffled', [i], 'Int')), (lambda i: app('unshuffled', [i], 'Int'))
    m = lambda i: sel(l.el, Pm(i))          # the window at place i after the shuffle
    last = V('place of the last window'); G = le(add(mul(sub(D, I(1)), W), R, of, I(1)), n)      # the last window is complete
    good = lambda i: lt(add(mul(m(i), W), R, of), n)
    K = lambda k: sum_(k, lambda i: ite(good(i), I(1), I(0)))        # complete windows among the first k
    C = lambda k: ite(or_(G, le(k, last)), k, sub(k, I(1)))
    end = lambda k: add(of, mul(K(k), W))
    lem = {}
    # ghost: place p >= offset is in window window(p) at within(p)
    window, within = (lambda p: app('window', [p], 'Int')), (lambda p: app('within', [p], 'Int'))
    base = [H['at least one recurrence'], H['windows'], H['offset']]
    def shuffle(e, args, nd):
        a = e.ranges([e.ev(args[0])])[0][0][0]
        e.trust('ranges::shuffle permutes the elements of the range')
        e.oblig('post', 'the list of windows is shuffled', B(a.same(o.f('indexesForShuffling'))), nd)
        p1 = e.axiom(allin(D, lambda i: and_(inr(I(0), Pm(i), D), eq(Qm(Pm(i)), i)))); p2 = e.axiom(allin(D, lambda i: and_(inr(I(0), Qm(i), D), eq(Pm(Qm(i)), i))))
        e.write(a, Ve(D, lam(lambda i: m(i))))
        w = e.post('after the shuffle windows are windows', allin(D, lambda i: inr(I(0), m(i), D)), [p1, H['windows are windows']])
        lem['windows'] = w
        e.post('after the shuffle windows differ', allin2(D, D, lambda i, j: implies(eq(m(i), m(j)), eq(i, j))), [p1, H['windows differ']])
        e.post('after the shuffle all windows are there', listed(D, lam(lambda i: m(i)), lambda v: Qm(sel(where, v))), [p2, H['all windows']])
        d = e.axiom(eq(last, ite(lt(I(0), D), Qm(sel(where, sub(D, I(1)))), I(0))))
        x = e.post('where the last window is', (lambda a: a)(and_(inr(I(0), last, D), eq(m(last), sub(D, I(1))))), [p2, d, few1, H['all windows']])
        x2 = e.post('there is one last window', allin(D, lambda i: implies(eq(m(i), sub(D, I(1))), eq(i, last))), [p1, p2, d, x, H['windows differ'], w])
        g1 = e.post('all windows but the last are complete', allin(D, lambda i: implies(not_(eq(i, last)), good(i))), base + [x2, w])
        g2 = e.post('the last window is complete or not', implies(lt(I(0), D), iff(good(last), G)), base + [x, few1])
        lem['count'] = c = e.induction('number of complete windows', lambda k: implies(le(k, D), eq(K(k), C(k))), I(0), [g1, g2, x, d])
        lem['room'] = e.post('complete windows fit', allin(D, lambda i: implies(good(i), le(add(end(i), W), n))), base + [c, x, g2, H['windows']])
        lem['not negative'] = e.induction('complete windows', lambda k: le(I(0), K(k)), I(0), [])
        pl = e.axiom(forall(['Int'], lambda p: implies(le(of, p), and_(eq(p, add(of, mul(window(p), W), within(p))), inr(I(0), within(p), W), le(I(0), window(p))))))
        lem['place'] = pl
        lem['start'] = e.post('windows start at their first place', forall(['Int'], lambda p: implies(le(of, p), and_(le(of, sub(p, within(p))), eq(within(sub(p, within(p))), I(0))))), base + [pl])
        lem['between'] = e.post('places between', forall(['Int', 'Int'], lambda p, q: implies(and_(le(of, p), lt(sub(p, within(p)), q), le(q, p)), eq(within(q), sub(within(p), sub(p, q))))), base + [pl])
        lem['in a window'] = e.post('places of a window', forall(['Int', 'Int'], lambda p, k: implies(and_(le(I(0), k), le(end(k), p), lt(p, add(end(k), W))), eq(within(p), sub(p, end(k))))), base + [pl, lem['not negative']])
        lem['next'] = e.post('places of the next window', forall(['Int'], lambda k: implies(le(I(0), k), eq(end(add(k, I(1))), add(end(k), ite(good(k), W, I(0)))))), base)
        lem['few'] = e.post('few places are left', lt(sub(n, end(D)), W), base + [c, x, d, few1])
    ex.contracts['std:shuffle'] = shuffle
    def inv(e, L):
        if not any('shuffledIndexes' in k[1] for k in L.unsolved): return []
        F = lambda nm: (lambda tau: sel(L.tree(sets, tau).el.f[nm].el, I(1)))
        first, train, x = F('areFirstDataOfTemporalSequence'), F('needToTrainOnData'), F('shuffledIndexes')
        inside = lambda tau, p: and_(le(of, p), lt(p, end(tau)))
        def every(f):
            r = lambda tau: forall(['Int'], lambda p: implies(inside(tau, p), f(tau, p)))
            r.using = lambda: base + [lem[k] for k in ('in a window', 'next', 'not negative')]
            return r
        lem['L'] = L; lem['F'] = (first, train, x)
        lem['invs'] = r = [('a window starts at its first datum', every(lambda tau, p: iff(sel(first(tau), p), eq(within(p), I(0))))),
                ('a window is trained on at its last datum', every(lambda tau, p: iff(sel(train(tau), p), eq(within(p), R)))),
                ('a window is in order', every(lambda tau, p: implies(not_(eq(within(p), I(0))), eq(sel(x(tau), p), add(sel(x(tau), sub(p, I(1))), I(1)))))),
                ('other places stay', lambda tau: forall(['Int'], lambda p: implies(or_(lt(p, of), le(end(tau), p)), and_(iff(sel(first(tau), p), sel(first(I(0)), p)), iff(sel(train(tau), p), sel(train(I(0)), p)), eq(sel(x(tau), p), sel(x(I(0)), p)))))),
                ('entries are data', lambda tau: allin(n, lambda p: inr(I(0), sel(x(tau), p), n))),
                ('the testing set stays', lambda tau: forall(['Int'], lambda p: and_(*[leafeq(sel(sel(L.tree(sets, tau).el.f[f].el, I(0)), p), sel(sel(S.el.f[f].el, I(0)), p)) for f in ('shuffledIndexes', 'areFirstDataOfTemporalSequence', 'needToTrainOnData')])))]
        r[3][1].using = lambda: base + [lem[k] for k in ('next', 'not negative')]
        r[4][1].using = r[5][1].using = lambda: base + [lem[k] for k in ('next', 'not negative', 'windows')]
        return r
    ex.cands.append(inv)
    ex.go(virtual(P, 'CompositeForTimeSeries', 'shuffle'), o, ())
    ends(ex, o, T_, s, S, t, n, lem, lambda p: ite(lt(p, of), p, within(p)))
    ex.post('the list of windows is one of all windows', listed(D, ex.read(o).f['indexesForShuffling'].el, lambda v: Qm(sel(where, v))))
    return ex
def construct(P):
    ex = Ctx(P, 'constructor')
    sets = ex.obj('data.sets', ('vec', ('cls', 'Set'), 2)); T_ = sets.i(I(1)); S, t = ex.read(sets), ex.read(T_); n = t.f['size']; R = V('numberOfRecurrences')
    ex.req(le(I(1), n), eq(t.f['shuffledIndexes'].len, n), allin(n, lambda i: eq(sel(t.f['shuffledIndexes'].el, i), i)))
    lv = ex.newroot('composite', ex.rawobj('CompositeForTimeSeries'))
    ex.go(byparams(P, 'CompositeForTimeSeries::CompositeForTimeSeries', 2, 'Set'), lv, (Ptr(sets.i(I(0))), R), throws=lt(R, I(1)), ctor=True)
    s, t = ex.read(lv), ex.read(T_)
    for k, v in seriesinv(s, t, n).items(): ex.post('invariant: ' + k, v)
    ex.post('invariant: all windows', listed(s.f['divide'], s.f['indexesForShuffling'].el, lambda v: v))
    tr, fi = t.f['needToTrainOnData'], t.f['areFirstDataOfTemporalSequence']
    ex.post('all data is trained on, in one sequence', allin(n, lambda i: and_(sel(tr.el, i), iff(sel(fi.el, i), eq(i, I(0))))))
    ex.post('the recurrences asked for', eq(s.f['numberOfRecurrences'], R))
    return ex
def ends(ex, o, T_, s, S, t, n, lem, since):
    sets = LVof(T_)
    new, y = ex.read(o), ex.read(T_)
    for k, v in seriesinv(new, y, n).items(): ex.post('invariant: ' + k, v)
    first, train, x = y.f['areFirstDataOfTemporalSequence'].el, y.f['needToTrainOnData'].el, y.f['shuffledIndexes'].el
    p, q = V('trained place'), V('place between'); ex.req(inr(I(0), p, n), sel(train, p))
    b = sub(p, since(p))
    H = seriesinv(s, t, n); base = [H['at least one recurrence'], H['windows'], H['offset'], inr(I(0), p, n), sel(train, p)]
    if lem: base += [P(s.f['divide']) for _, P in lem['invs']] + [lem[k] for k in ('place', 'start', 'between', 'few')]
    else: base = None
    ex.post('a datum that is trained on follows a start', and_(le(I(0), b), le(b, p), sel(first, b)), base)
    ex.req(lt(b, q), le(q, p)); base = base and base + [lt(b, q), le(q, p)]
    ex.post('the data since the start are consecutive', eq(sel(x, q), add(sel(x, sub(q, I(1))), I(1))), base)
    ex.post('training starts with a start', sel(first, I(0)))
    rest(ex, 'shuffling', sets, S, T_, t, ('shuffledIndexes', 'needToTrainOnData', 'areFirstDataOfTemporalSequence')); unchanged(ex, 'shuffling', o, s, but=('offset', 'indexesForShuffling'))
    k = V('index'); ex.req(inr(I(0), k, n))
    ex.post('a datum starts a sequence as flagged', iff(ex.go(virtual(ex.prog, 'CompositeForTimeSeries', 'isFirstTrainingDataOfTemporalSequence'), o, (k,)), sel(first, k)))
    ex.post('a datum is trained on as flagged', iff(ex.go(virtual(ex.prog, 'CompositeForTimeSeries', 'needToTrainOnTrainingData'), o, (k,)), sel(train, k)))
UNITS = [('non temporal', nontemporal)] + [('unshuffle ' + c, unshuffle('CompositeFor' + c)) for c in ('NonTemporalData', 'TemporalData', 'TimeSeries')] + [('sequential', sequential), ('time series constructor', construct), ('time series', series), ('time series shorter than a window', short)]
