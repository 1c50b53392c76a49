from .common import *
ASSUME = ['outputs are mathematical reals; a float exponential is finite for arguments up to 88; exp is the mathematical function with exp(a+b) = exp(a)*exp(b), exp > 0 and exp monotone']
E = lambda u: app('exp', [u], 'Real')
def softmaxobj(ex): return ex.obj('softmax', 'Softmax')
def run(entry):
    """entry: the function a layer calls, and whether it has a second argument"""
    def u(P):
        ex = Ctx(P, entry)
        o = softmaxobj(ex); v = ex.obj('outputs', ('vec', ('real',)))
        t = ex.read(v); x, n = t.el, t.len
        ex.req(le(I(1), n))
        old = ex.read(o)
        args = (v,) if entry.endswith('Testing') else (v, V('temporalReset', 'Bool'))
        fn = P.find('Softmax::' + entry)
        def exp_(e, a, nd):
            u = e.castto(e.rv(a[0]), ('real',), None)
            e.oblig('post', 'the exponential does not overflow: its argument is at most 88', le(u, R(88)), nd)
            return E(u)
        ex.contracts['std:exp'] = ex.contracts['std:expf'] = exp_
        ex.go(fn, o, args)
        r = ex.read(v)
        ex.post('the size does not change', eq(r.len, n))
        unchanged(ex, entry, o, old)
        # mathematics of the specification: exp(x_i) / sum of exp(x_j), for all x
        e = lambda j: E(sel(x, j)); S = lambda k: sum_(k, e)
        pos = ex.axiom(forall(['Int'], lambda j: lt(R(0), e(j))))
        Spos = ex.induction('the sum of exponentials is positive', lambda k: lt(R(0), S(k)), I(1), [pos])
        S0 = ex.post('the sum over the vector is positive', lt(R(0), S(n)), [Spos, le(I(1), n)])
        mono = ex.induction('no exponential exceeds the sum', lambda k: and_(le(R(0), S(k)), forall(['Int'], lambda j: implies(inr(I(0), j, k), le(e(j), S(k))))), I(0), [pos])
        i, j = V('i'), V('j'); ini = inr(I(0), i, n)
        def shift(c, tag):
            """exp(x-c) / sum of exp(x_j-c) is the same for all c"""
            f = lambda j: E(sub(sel(x, j), c)); F = lambda k: sum_(k, f)
            fac = ex.axiom(forall(['Int'], lambda j: eq(e(j), mul(f(j), E(c)))))
            ce = ex.axiom(lt(R(0), E(c)))
            h = ex.induction('sum of exponentials with a constant ' + tag, lambda k: eq(S(k), mul(E(c), F(k))), I(0), [fac])
            hn = ex.post('sum over the vector with a constant ' + tag, eq(S(n), mul(E(c), F(n))), [h, le(I(1), n)])
            fi = ex.post('factor of element i ' + tag, eq(e(i), mul(f(i), E(c))), [fac])
            # quotient: f/F with e = f*C, S = C*F, S > 0
            return ex.post('quotient with a constant ' + tag, eq(rdiv(f(i), F(n)), rdiv(e(i), S(n))), [hn, fi, S0, ce])
        spec = lambda i: rdiv(e(i), S(n))
        # element i of the result, i in range
        ri = subst(sel(r.el, i), {a: TRUE for a in [ini] + list(ini.args)})
        rel = [shift(c, 'subtracted' + '*' * k) for k, c in enumerate(shifts(ri, x))]
        s0 = ex.S
        ex.S = s0.fork(ini)
        same = ex.post('element of the result', eq(sel(r.el, i), ri), [ini])
        ex.post('probability i is exp(x_i) over the sum of all exponentials', eq(sel(r.el, i), spec(i)), rel + [same, ini, S0])
        ex.S = s0
        p = lambda i: rdiv(e(i), S(n))
        ipos = ex.post('the inverse of the sum is positive', and_(lt(R(0), rdiv(R(1), S(n))), eq(mul(S(n), rdiv(R(1), S(n))), R(1))), [S0])
        ex.S = s0.fork(ini)
        ex.post('probabilities are positive', lt(R(0), p(i)), [ipos, pos])
        ex.post('probabilities are at most one', le(p(i), R(1)), [ipos, mono, ini, S0])
        o = and_(inr(I(0), j, n), le(sel(x, j), sel(x, i)))
        ex.S = ex.S.fork(o)
        em = ex.axiom(implies(le(sel(x, j), sel(x, i)), le(e(j), e(i))))
        ex.post('a larger input never gets a smaller probability', le(p(j), p(i)), [o, em, ipos])
        ex.S = s0
        ex.post('the probabilities sum to one', eq(sum_(n, p), R(1)), [ipos])
        shift(neg(V('d', 'Real')), 'added: nothing changes')
        return ex
    return u
def shifts(ri, x):
    """the constants c with a sum of exp(x_j - c) in the result (whatever the code subtracts)"""
    out = []
    for a in subterms([ri]):
        if a.op == 'app' and a.args[0] == 'exp':
            c = sub(sel(x, V('i')), a.args[1])
            if not occurs(V('i'), c) and c not in out and c is not R(0): out.append(c)
    return out
def errors(P):
    ex = Ctx(P, 'errors')
    o = softmaxobj(ex); v = ex.obj('errors', ('vec', ('real',)))
    t = ex.read(v); old = ex.read(o)
    ex.go(P.find('Softmax::applyBeforeBackpropagation'), o, (v,))
    ex.post('errors pass through unchanged', and_(eq(ex.read(v).len, t.len), leafeq(ex.read(v).el, t.el)))
    unchanged(ex, 'backpropagation', o, old)
    return ex
UNITS = [('training', run('applyAfterOutputForTraining')), ('testing', run('applyAfterOutputForTesting')), ('errors', errors)]
