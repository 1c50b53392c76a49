from .common import *
ASSUME = ['measures are real numbers (no NaN): at least one datum was evaluated and the network produced numbers']
HIGH = [('globalClusteringRate', 'computeGlobalClusteringRate'), ('weightedClusteringRate', 'computeWeightedClusteringRate'), ('f1Score', 'computeF1Score')]
LOW = [('meanAbsoluteError', 'computeMeanAbsoluteError'), ('rootMeanSquaredError', 'computeRootMeanSquaredError')]
def new(c): return V('new:' + c, 'Real')
def state(ex):
    o = ex.obj('s', 'StatisticAnalysis'); s = ex.read(o)
    for _, c in HIGH + LOW:
        # the measures themselves are under contract in C13; here only their sign matters (C13: rates and errors are never negative)
        ex.contracts['StatisticAnalysis::' + c] = (lambda c: lambda e, fn, this, args, n: new(c))(c)
        ex.req(le(R(0), new(c)))
    return o, s
def step(P):
    ex = Ctx(P, 'stopTesting')
    o, s = state(ex)
    # history of the earlier evaluations: v(0) .. v(k-1); invariant: the stored best is their best (-1 before the first)
    k = V('k'); ex.req(le(I(0), k))
    h = {c: V('history:' + c, ('A', 'Real')) for _, c in HIGH + LOW}
    for f, c in HIGH + LOW: ex.req(allin(k, lambda i: le(R(0), sel(h[c], i))))
    def best(c, b, k, v, high):
        return and_(implies(eq(k, I(0)), eq(b, R(-1))), implies(lt(I(0), k), and_(allin(k, lambda i: le(v(i), b) if high else le(b, v(i))), exin(k, lambda i: eq(v(i), b)))))
    for f, c in HIGH: ex.req(best(c, s.f[f + 'Max'], k, lambda i: sel(h[c], i), True))
    for f, c in LOW: ex.req(best(c, s.f[f + 'Min'], k, lambda i: sel(h[c], i), False))
    ex.go(P.find('StatisticAnalysis::stopTesting'), o, ())
    t = ex.read(o)
    for fs, suffix, flag, high in ((HIGH, 'Max', 'IsBetterThanMax', True), (LOW, 'Min', 'IsBetterThanMin', False)):
        for f, c in fs:
            v = lambda i: ite(lt(i, k), sel(h[c], i), new(c))
            b2 = t.f[f + suffix]
            for nm, g in (('bounds every evaluation so far', allin(add(k, I(1)), lambda i: le(v(i), b2) if high else le(b2, v(i)))), ('is one of the evaluations so far', or_(eq(new(c), b2), exin(k, lambda i: eq(sel(h[c], i), b2))))):
                ex.post('%s%s %s' % (f, suffix, nm), g)
            ex.post('%s is that of this evaluation' % f, eq(t.f[f], new(c)))
            ex.post('%s%s exactly when every earlier evaluation is worse' % (f, flag), iff(t.f[f + flag], allin(k, lambda i: lt(sel(h[c], i), new(c)) if high else lt(new(c), sel(h[c], i)))))
    keep = [f for f in s.f if not any(f.startswith(x) for x, _ in HIGH + LOW)]
    unchanged(ex, 'stopTesting', o, s, keep)
    return ex
def getters(P):
    ex = Ctx(P, 'getters')
    o, s = state(ex)
    for fs, suffix in ((HIGH, 'Max'), (LOW, 'Min')):
        for f, c in fs:
            for g in (f, f + suffix):
                r = ex.go(P.find('StatisticAnalysis::get' + g[0].upper() + g[1:]), o, ())
                ex.post('%s is reported' % g, eq(r, s.f[g]))
    unchanged(ex, 'reading', o, s)
    return ex
def start(P):
    ex = Ctx(P, 'start')
    o, s = state(ex)
    ex.go(P.find('StatisticAnalysis::startTesting'), o, ())
    unchanged(ex, 'startTesting', o, s, None, ('clusters', 'numberOfDataWellClassified', 'numberOfDataMisclassified'))
    o2 = ex.newroot('new', ex.construct('StatisticAnalysis', None, [], None))
    t = ex.read(o2)
    for f in t.f:
        if f.endswith('Max') and not f.endswith('ThanMax') or f.endswith('Min') and not f.endswith('ThanMin'): ex.post('%s starts as -1' % f, eq(t.f[f], R(-1)))
    return ex
UNITS = [('stopTesting', step), ('getters', getters), ('start', start)]
