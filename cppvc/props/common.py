from vc import *
from prog import fn_base
def fn_name(q): return fn_base(q).split('<')[0]
def byparams(P, name, n, has=''):
    """function with a body by normalised name and number of parameters"""
    l = [m for m, q in P.qual.items() if fn_name(q) == name and m in P.bodies and len(P.bodies[m].params) == n and has in q]
    if not l: raise Unsupported('function %s' % name)
    return P.bodies[l[0]]
def V(s, sort='Int'): return var(s, sort)
def inr(lo, i, hi): return and_(le(lo, i), lt(i, hi))
def allin(n, f, sort='Int'): return forall(['Int'], lambda i: implies(inr(I(0), i, n), f(i)))
def allin2(n, m, f): return forall(['Int', 'Int'], lambda i, j: implies(and_(inr(I(0), i, n), inr(I(0), j, m)), f(i, j)))
def exin(n, f): return exists(['Int'], lambda i: and_(inr(I(0), i, n), f(i)))
def absr(a): return ite(le(R(0), a), a, neg(a))
def treeeq(a, b):
    """all leaves equal (arrays pointwise everywhere)"""
    out = []
    for (p, x), (_, y) in zip(leaves(a), leaves(b)): out.append(leafeq(x, y))
    return and_(*out)
def prod(*a):
    r = I(1)
    for x in a: r = mul(r, x)
    return r
def leafeq(x, y):
    if x is y: return TRUE
    d = 0; s = x.sort
    while isinstance(s, tuple): d += 1; s = s[1]
    if d == 0: return eq(x, y)
    def q(*vs):
        a, b = x, y
        for v in vs: a, b = sel(a, v), sel(b, v)
        return eq(a, b)
    return forall(['Int'] * d, q)
def samevec(a, b):
    """equal lengths and equal elements below the length (vectors of scalars)"""
    return and_(eq(a.len, b.len), allin(a.len, lambda i: and_(*[eq(sel(x, i), sel(y, i)) for (_, x), (_, y) in zip(leaves(a.el), leaves(b.el))])))
def unchanged(ex, what, lv, old, fields=None, but=()):
    """frame condition: every field of the object except those in but is what it was"""
    new = ex.read(lv)
    for n in new.f:
        if n in but or (fields is not None and n not in fields): continue
        ex.post('%s leaves %s alone' % (what, n), treeeq(new.f[n], old.f[n]))
def randoms(ex, *names):
    """contract of functions that draw a random number: the next of a stream about which nothing is known"""
    c = ex.newroot('ghost:random', I(0))
    def draw(e, fn, this, args, n):
        k = e.read(c); e.write(c, add(k, I(1)))
        return app('random', [k], 'Real')
    for nm in names: ex.contracts[nm] = draw
    return c
def activations(ex):
    """contract of the activation function of a neuron: some function of the sum (what it is: C26)"""
    for nm in ('function', 'derivative'):
        f = (lambda nm: lambda e, fn, this, a, n: app('activation.' + nm, [e.val(a[0])], 'Real'))(nm)
        for p in ('*::', 'obj:', 'ref:'): ex.contracts[p + nm] = f
    ex.contracts['ActivationFunction::get'] = lambda e, fn, this, a, n: fresh('activation function', 'Ref')
def learn(ex, ts, cands, name, using=()):
    """lemmas t = c for every uninterpreted result t of a loop in the trees ts and the candidate it is found to equal"""
    import solve
    out = []; hy = ex.hyps()
    heads = lambda x: {y.args[0] for y in subterms([x]) if y.op == 'app' and str(y.args[0]).startswith('L')}
    for t in sorted((t for t in subterms(ts) if t.op == 'app' and str(t.args[0]).startswith('L') and not t.loose and t.sort in ('Int', 'Real')), key=lambda t: t.id):
        # the facts about this result alone
        use = [h for h in hy if heads(h) == {t.args[0]}] + list(using)
        for c in cands:
            if c.sort == t.sort and c is not t and any(solve.prove(use, eq(t, c), timeout=2000, rounds=k, nl=False)[0] == 'proved' for k in (2, 3)):
                out.append((t, c, ex.post(name, eq(t, c), use))); break
    return out
