from .common import *
from .c25 import firstmax, argmaxinv
ASSUME = ['outputs are real numbers (no NaN); counters are mathematical numbers (a float counter stops at 2^24)']
CNT = ('truePositive', 'trueNegative', 'falsePositive', 'falseNegative')
def setup(P, name):
    ex = Ctx(P, name)
    o = ex.obj('s', 'StatisticAnalysis'); x = ex.obj('outputs', ('vec', ('real',))); d = ex.obj('desired', ('vec', ('real',)))
    n = ex.read(o).f['clusters'].len
    ex.req(eq(ex.read(x).len, n), eq(ex.read(d).len, n), le(I(1), n))
    return ex, o, x, d, n
def cl(s, f, i): return sel(s.f['clusters'].el.f[f], i)
def result(ex, o, s, n, kind, err, good, what):
    """kind(i): {counter: condition}; err(i): what is added to the total error; good: well classified"""
    t = ex.read(o)
    i = V('i')
    s0 = ex.S
    ex.S = s0.fork(inr(I(0), i, n))
    k = kind(i)
    for f in CNT: ex.post('%s of output i counts this datum exactly when it should' % f, eq(cl(t, f, i), add(cl(s, f, i), ite(k.get(f, FALSE), R(1), R(0)))))
    ex.post('exactly one counter of output i is increased', eq(add(*[cl(t, f, i) for f in CNT]), add(R(1), *[cl(s, f, i) for f in CNT])))
    ex.post('the absolute error of output i is added', eq(cl(t, 'totalError', i), add(cl(s, 'totalError', i), err(i))))
    ex.S = s0
    w, m = 'numberOfDataWellClassified', 'numberOfDataMisclassified'
    ex.post('well classified exactly when %s' % what, eq(t.f[w], add(s.f[w], ite(good, R(1), R(0)))))
    ex.post('misclassified otherwise', eq(t.f[m], add(s.f[m], ite(good, R(0), R(1)))))
    ex.post('the number of outputs stays', eq(t.f['clusters'].len, n))
    unchanged(ex, 'one evaluation', o, s, None, ('clusters', w, m))
def classification(P):
    ex, o, x, d, n = setup(P, 'classification')
    c, sep = V('classNumber'), V('separator', 'Real')
    ex.req(inr(I(0), c, n))
    s = ex.read(o); a = ex.read(x).el
    ex.cands.append(argmaxinv(a))
    ex.go(P.find('StatisticAnalysis::evaluateOnceForClassification'), o, (x, c, sep))
    up = lambda i: lt(sep, sel(a, i)); me = lambda i: eq(i, c)
    result(ex, o, s, n, lambda i: {'truePositive': and_(me(i), up(i)), 'falseNegative': and_(me(i), not_(up(i))), 'falsePositive': and_(not_(me(i)), up(i)), 'trueNegative': and_(not_(me(i)), not_(up(i)))},
           lambda i: absr(sub(ite(me(i), R(1), R(0)), sel(a, i))), firstmax(a, n, c), 'its class has the highest output')
    return ex
def flaginv(ok):
    def inv(e, L):
        f = L.scalar('Bool')
        return [('the flag tells whether all outputs so far are right', lambda tau: iff(f(tau), allin(tau, ok)))]
    return inv
def multiple(P):
    ex, o, x, d, n = setup(P, 'multiple classification')
    sep = V('separator', 'Real')
    s = ex.read(o); a, b = ex.read(x).el, ex.read(d).el
    up = lambda i: lt(sep, sel(a, i)); des = lambda i: lt(sep, sel(b, i))
    ok = lambda i: iff(up(i), des(i))
    ex.cands.append(flaginv(ok))
    ex.go(P.find('StatisticAnalysis::evaluateOnceForMultipleClassification'), o, (x, d, sep))
    result(ex, o, s, n, lambda i: {'truePositive': and_(des(i), up(i)), 'falseNegative': and_(des(i), not_(up(i))), 'falsePositive': and_(not_(des(i)), up(i)), 'trueNegative': and_(not_(des(i)), not_(up(i)))},
           lambda i: absr(sub(sel(b, i), sel(a, i))), allin(n, ok), 'every output is on the right side of the separator')
    return ex
def regression(P):
    ex, o, x, d, n = setup(P, 'regression')
    pr = V('precision', 'Real')
    s = ex.read(o); a, b = ex.read(x).el, ex.read(d).el
    ok = lambda i: le(absr(sub(sel(a, i), sel(b, i))), pr)
    ex.req(le(R(0), pr))
    ex.cands.append(flaginv(ok))
    ex.go(P.find('StatisticAnalysis::evaluateOnceForRegression'), o, (x, d, pr))
    hi = lambda i: lt(add(sel(b, i), pr), sel(a, i)); lo = lambda i: lt(sel(a, i), sub(sel(b, i), pr))
    result(ex, o, s, n, lambda i: {'falsePositive': hi(i), 'falseNegative': lo(i), 'trueNegative': ok(i)},
           lambda i: absr(sub(sel(b, i), sel(a, i))), allin(n, ok), 'every output is within the precision')
    return ex
def rates(P):
    ex = Ctx(P, 'rates')
    o = ex.obj('s', 'StatisticAnalysis'); s = ex.read(o)
    n = s.f['clusters'].len; k = V('k', 'Real')
    W, M = s.f['numberOfDataWellClassified'], s.f['numberOfDataMisclassified']
    f = lambda nm, i: cl(s, nm, i)
    h1 = and_(le(R(0), W), le(R(0), M), lt(R(0), add(W, M)))
    h2 = le(I(1), n)
    h3 = allin(n, lambda i: and_(*[le(R(0), f(c, i)) for c in CNT], le(R(0), f('totalError', i))))
    # counters are sums of ones
    h4 = allin(n, lambda i: and_(*[or_(eq(f(c, i), R(0)), le(R(1), f(c, i))) for c in CNT]))
    ex.req(h1, h2, h3)
    call = lambda g: ex.go(P.find('StatisticAnalysis::' + g), o, ())
    N = toreal(n)
    acc = call('computeGlobalClusteringRate')
    ex.post('accuracy is well classified over all', eq(acc, rdiv(W, add(W, M))))
    ex.post('accuracy is between zero and one', and_(le(R(0), acc), le(acc, R(1))), [h1])
    tp, fp, fn = lambda i: f('truePositive', i), lambda i: f('falsePositive', i), lambda i: f('falseNegative', i)
    rec = lambda i: ite(lt(R(0), tp(i)), rdiv(tp(i), add(tp(i), fn(i))), R(0))
    prc = lambda i: ite(lt(R(0), tp(i)), rdiv(tp(i), add(tp(i), fp(i))), R(0))
    def f1(i):
        p, r = rdiv(tp(i), add(tp(i), fp(i))), rdiv(tp(i), add(tp(i), fn(i)))
        return ite(lt(R(0), tp(i)), rdiv(scale(mul(p, r), 2), add(p, r)), R(0))
    def mean(nm, v, g, txt):
        r = call(v)
        ex.post('%s is the mean %s of the outputs' % (nm, txt), eq(r, rdiv(sum_(n, g), N)))
        i = V('i')
        s0 = ex.S
        ex.S = s0.fork(inr(I(0), i, n))
        # one output
        hyp = [h3, inr(I(0), i, n)]
        h = [and_(le(R(0), tp(i)), le(R(0), fn(i)), le(R(0), fp(i)))]
        ex.post('counters of output i (%s)' % nm, h[0], hyp)
        if nm == 'F1 score':
            P_, R_ = rdiv(tp(i), add(tp(i), fp(i))), rdiv(tp(i), add(tp(i), fn(i)))
            up = lt(R(0), tp(i))
            a = ex.post('precision of output i is in (0, 1]', implies(up, and_(lt(R(0), P_), le(P_, R(1)))), h)
            b = ex.post('recall of output i is in (0, 1]', implies(up, and_(lt(R(0), R_), le(R_, R(1)))), h)
            p, q = V('p', 'Real'), V('q', 'Real')
            gen = and_(le(R(0), rdiv(scale(mul(p, q), 2), add(p, q))), le(rdiv(scale(mul(p, q), 2), add(p, q)), R(1)))
            pre = and_(lt(R(0), p), le(p, R(1)), lt(R(0), q), le(q, R(1)))
            # harmonic mean: a fact about all real numbers p, q
            ex.S = s0.fork(pre)
            x1 = ex.post('lemma: 2pq <= p+q', le(scale(mul(p, q), 2), add(p, q)), [pre])
            x2 = ex.post('lemma: quotients of 2pq and p+q', implies(and_(le(scale(mul(p, q), 2), add(p, q)), pre), gen), [])
            ex.S = s0
            lemma = forall(['Real', 'Real'], lambda p_, q_: implies(subst(pre, {p: p_, q: q_}), subst(gen, {p: p_, q: q_})))
            ex.facts.append(lemma)      # generalisation of the two lemmas above (p, q are arbitrary)
            ex.S = s0.fork(inr(I(0), i, n))
            inst = implies(subst(pre, {p: P_, q: R_}), subst(gen, {p: P_, q: R_}))
            ex.post('instance of the lemma for output i', inst, [lemma])
            one = ex.post('%s of output i is between zero and one' % nm, and_(le(R(0), g(i)), le(g(i), R(1))), [a, b, inst])
        else:
            one = ex.post('%s of output i is between zero and one' % nm, and_(le(R(0), g(i)), le(g(i), R(1))), h)
        ex.S = s0
        al = allin(n, lambda i: and_(le(R(0), g(i)), le(g(i), R(1))))
        ex.facts.append(al)             # generalisation: i is arbitrary
        b = ex.induction('sum of %s' % nm, lambda k: implies(le(k, n), and_(le(R(0), sum_(k, g)), le(sum_(k, g), toreal(k)))), I(0), [al])
        bn = ex.post('sum of %s over all outputs' % nm, and_(le(R(0), sum_(n, g)), le(sum_(n, g), N)), [b, h2])
        ex.post('%s is between zero and one' % nm, and_(le(R(0), rdiv(sum_(n, g), N)), le(rdiv(sum_(n, g), N), R(1))), [bn, h2])
    mean('weighted accuracy', 'computeWeightedClusteringRate', rec, 'recall')
    mean('F1 score', 'computeF1Score', f1, 'F1 score')
    mae = call('computeMeanAbsoluteError')
    ex.post('mean absolute error is the summed absolute error per datum', eq(mae, rdiv(sum_(n, lambda i: f('totalError', i)), add(W, M))))
    unchanged(ex, 'computing rates', o, s)
    return ex
def start(P):
    ex = Ctx(P, 'start')
    o = ex.obj('s', 'StatisticAnalysis'); s = ex.read(o)
    ex.go(P.find('StatisticAnalysis::startTesting'), o, ())
    t = ex.read(o)
    n = s.f['clusters'].len
    ex.post('same number of outputs', eq(t.f['clusters'].len, n))
    for f in CNT + ('totalError',): ex.post('%s of every output is zero' % f, allin(n, lambda i: eq(cl(t, f, i), R(0))))
    for f in ('numberOfDataWellClassified', 'numberOfDataMisclassified'): ex.post('%s is zero' % f, eq(t.f[f], R(0)))
    ex.go(P.find('StatisticAnalysis::initialize'), o, (V('outputs_'),)) if False else None
    return ex
UNITS = [('classification', classification), ('multiple classification', multiple), ('regression', regression), ('rates', rates), ('start', start)]
