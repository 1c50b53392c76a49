from .common import *
NONE, AND, OR = I(0), I(1), I(2)
ASSUME = ['float values are mathematical reals without NaN; literals with negative values cannot be written']
def wait(ex, name):
    w = ex.obj(name, 'Wait')
    o = ex.read(w.f('op')); ex.req(le(I(0), o), le(o, I(2)))
    return w
def given(w):
    return {'epochs': le(I(0), w.f['epochs']), 'accuracy': le(R(0), w.f['accuracy']), 'mae': le(R(0), w.f['mae']), 'duration': le(I(0), w.f['duration'])}
def reached(w, ep, acc, mae, dur):
    """the limit as a user reads it: more epochs than asked for have begun, accuracy at least / error at most / time at least as asked for; invalid (negative) measurements reach nothing"""
    return {'epochs': and_(lt(w.f['epochs'], ep), lt(I(0), ep)), 'accuracy': and_(le(w.f['accuracy'], acc), le(R(0), acc)),
            'mae': and_(le(mae, w.f['mae']), le(R(0), mae)), 'duration': le(w.f['duration'], dur)}
def over(w, ep, acc, mae, dur, conj):
    g, r = given(w), reached(w, ep, acc, mae, dur)
    return and_(*[implies(g[k], r[k]) for k in g]) if conj else or_(*[and_(g[k], r[k]) for k in g])
def now(ex, dur):
    # the clock is read once per call: the elapsed time is a parameter of the specification
    ex.contracts['std:now'] = lambda e, args, n: var('now', 'Opq')
    ex.contracts['std:duration_cast'] = lambda e, args, n: dur
CUR = lambda: (V('ep'), V('acc', 'Real'), V('maeNow', 'Real'), V('dur'))
def isover(P):
    ex = Ctx(P, 'isOver')
    w = wait(ex, 'w'); cur = CUR(); now(ex, cur[3])
    old = ex.read(w)
    r = ex.go(P.find('Wait::isOver'), w, cur[:3])
    t = ex.read(w)
    ex.post('and: over exactly when all given limits are reached', implies(eq(t.f['op'], AND), iff(r, over(t, *cur, True))))
    ex.post('or, single: over exactly when at least one given limit is reached', implies(ne(t.f['op'], AND), iff(r, over(t, *cur, False))))
    unchanged(ex, 'isOver', w, old)
    return ex
def join(opname, conj):
    OP, BAD = (AND, OR) if conj else (OR, AND)
    def u(P):
        ex = Ctx(P, 'join ' + opname)
        a, b = wait(ex, 'a'), wait(ex, 'b')
        cur = CUR()
        ta, tb = ex.read(a), ex.read(b)
        fn = byparams(P, 'Wait::operator' + opname, 1)
        base = ex.S.fork()
        r = ex.go(fn, a, (b,), throws=or_(eq(ta.f['op'], BAD), eq(tb.f['op'], BAD)))
        t = ex.read(a)
        ex.post('operand b is unchanged', treeeq(ex.read(b), tb))
        ex.post('the result is the joined condition itself', B(isinstance(r, LV) and r.same(a)))
        ex.post('the operator is recorded', eq(t.f['op'], OP))
        ex.post('reached exactly when %s operand is' % ('every' if conj else 'some'), iff(over(t, *cur, conj), (and_ if conj else or_)(over(ta, *cur, conj), over(tb, *cur, conj))))
        for k in given(t):
            ga, gb, gt_ = given(ta)[k], given(tb)[k], given(t)[k]
            x, y, z = ta.f[k], tb.f[k], t.f[k]
            late = conj != (k == 'mae')      # the larger value decides
            ex.post('%s: given exactly when one of them is' % k, iff(gt_, or_(ga, gb)))
            ex.post('%s: the deciding limit is kept' % k, implies(gt_, or_(and_(ga, eq(z, x)), and_(gb, eq(z, y)))))
            ex.post('%s: both given, the one that decides' % k, implies(and_(ga, gb), eq(z, ite(le(x, y), y, x) if late else ite(le(x, y), x, y))))
        s1 = ex.S
        # the other order
        ex.S = State(dict(base.mem), s1.pc)
        ex.go(fn, b, (a,))
        t2 = ex.read(b)
        for k in given(t): ex.post('%s does not depend on the order' % k, or_(eq(t.f[k], t2.f[k]), and_(not_(given(t)[k]), not_(given(t2)[k]))))
        return ex
    return u
def literal(suffix, field, factor, sort):
    def u(P):
        ex = Ctx(P, 'literal ' + suffix)
        v = V('value', sort); ex.req(le(num(0, sort), v))
        fn = next(P.bodies[m] for m, q in P.qual.items() if ('operator"" ' + suffix + '(' in q or 'operator""' + suffix + '(' in q) and m in P.bodies)
        r = ex.go(fn, None, (v,))
        ex.post('the value is stored', eq(r.f[field], scale(v, factor)))
        for k in ('epochs', 'accuracy', 'mae', 'duration'):
            if k != field: ex.post('%s is not given' % k, not_(given(r)[k]))
        ex.post('no operator yet', eq(r.f['op'], NONE))
        return ex
    return u
UNITS = [('isOver', isover), ('join with or', join('||', False)), ('join with and', join('&&', True))] + \
        [('literal ' + s, literal(s, f, k, so)) for s, f, k, so in (('_ep', 'epochs', 1, 'Int'), ('_acc', 'accuracy', 1, 'Real'), ('_mae', 'mae', 1, 'Real'), ('_ms', 'duration', 1, 'Int'), ('_s', 'duration', 1000, 'Int'), ('_min', 'duration', 60000, 'Int'))]
