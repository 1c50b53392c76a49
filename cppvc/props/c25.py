from .common import *
ASSUME = ['outputs are real numbers (no NaN)']
def firstmax(x, n, c):
    """position c holds the highest of the first n elements, and no earlier position does"""
    return and_(inr(I(0), c, n), allin(n, lambda j: le(sel(x, j), sel(x, c))), allin(c, lambda j: lt(sel(x, j), sel(x, c))))
def argmaxinv(x):
    """loop invariant: the index is -1 before the first element and then the first position of the highest element so far, with its value"""
    def inv(e, L):
        idx, val = L.scalar('Int'), L.scalar('Real')
        return [('the index is the position of the highest output so far', lambda tau: and_(
            implies(eq(tau, I(0)), eq(idx(tau), I(-1))),
            implies(lt(I(0), tau), and_(firstmax(x, tau, idx(tau)), eq(val(tau), sel(x, idx(tau)))))))]
    return inv
def cluster(P):
    ex = Ctx(P, 'computeCluster')
    net = ex.obj('net', 'StraightforwardNeuralNetwork'); inp = ex.obj('inputs', ('vec', ('real',)))
    out = ex.read(ex.obj('outputs', ('vec', ('real',))))
    rst = V('temporalReset', 'Bool')
    def output(e, fn, this, args, n):
        e.oblig('post', 'the outputs are those of the given inputs', and_(B(this.same(net)), treeeq(e.val(args[0]), e.read(inp)), eq(e.val(args[1]), rst)), n)
        return out
    ex.contracts['NeuralNetwork::output'] = output
    ex.req(le(I(1), out.len))
    ex.cands.append(argmaxinv(out.el))
    r = ex.go(P.find('StraightforwardNeuralNetwork::computeCluster'), net, (inp, rst))
    ex.post('the predicted class is the first position of the highest output', firstmax(out.el, out.len, r))
    return ex
def evaluation(P):
    ex = Ctx(P, 'evaluateOnceForClassification')
    o = ex.obj('s', 'StatisticAnalysis'); x = ex.obj('outputs', ('vec', ('real',)))
    t, s = ex.read(x), ex.read(o)
    c = V('classNumber'); n = s.f['clusters'].len
    ex.req(eq(t.len, n), inr(I(0), c, n))
    ex.cands.append(argmaxinv(t.el))
    ex.go(P.find('StatisticAnalysis::evaluateOnceForClassification'), o, (x, c, V('separator', 'Real')))
    s2 = ex.read(o)
    good = firstmax(t.el, n, c)
    for f, g in (('numberOfDataWellClassified', good), ('numberOfDataMisclassified', not_(good))):
        ex.post('%s counts the datum exactly when its class %s the predicted one' % (f, 'is' if f.endswith('WellClassified') else 'is not'), eq(s2.f[f], add(s.f[f], ite(g, R(1), R(0)))))
    return ex
UNITS = [('computeCluster', cluster), ('evaluation', evaluation)]
