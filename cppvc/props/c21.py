from .common import *
from .c23 import concrete
from .c27 import virtual
ASSUME = ['the compiler generated copy of a class copies every member', 'objects reached through the pointers to activation and output functions never change']
SHARED = ('activationFunction', 'outputFunction')
def pointers(t, path=()):
    return [(p, x) for p, x in leaves(t, path) if lastsort(x.sort) in ('Ref', 'Ptr', 'Obj')]
def lastsort(s):
    while isinstance(s, tuple): s = s[1]
    return s
def const(x, v):
    """every element of the (nested) array x is v"""
    d = 0; s = x.sort
    while isinstance(s, tuple): d += 1; s = s[1]
    if d == 0: return eq(x, v)
    def q(*vs):
        y = x
        for w in vs: y = sel(y, w)
        return eq(y, v)
    return forall(['Int'] * d, q)
def inside(ns, x, f):
    """f for the elements below the length only"""
    return allin(ns.len, lambda i: f(sel(x, i)))
def layer(cls):
    def u(P):
        ex = Ctx(P, cls + ' clone')
        o = ex.obj('layer', cls); s = ex.read(o)
        opt = V('the optimizer of the copy', 'Ref')
        if cls.startswith('MaxPooling'): ex.req(eq(s.f['neurons'].len, I(0)))    # pooling layers are built without neurons
        made = lambda x: app('clone', [x], 'Obj')
        this = []
        def cl(e, fn, lv, args, n):
            p = e.val(args[0])
            if isinstance(p, T) and p in e.ptrs: p = Ptr(e.ptrs[p])
            e.oblig('post', 'the optimizers of the copy are made for the copy', B(isinstance(p, Ptr) and isinstance(p.lv, LV) and not p.lv.same(o) and (e.dynclass(p.lv) or '').split('<')[0] == cls), n)
            return made(e.read(lv))
        ex.contracts['obj:clone'] = cl
        r = ex.go(virtual(P, cls, 'clone'), o, (opt,))
        unchanged(ex, 'clone', o, s)
        ok = isinstance(r, Un) and isinstance(r.t, St) and r.t.cls == cls
        ex.post('the copy is of the same kind', B(ok))
        if not ok: return ex
        c = r.t
        for nm in s.f:
            a, b = s.f[nm], c.f[nm]
            if nm == 'optimizers':
                ex.post('as many optimizers', eq(b.len, a.len))
                ex.post('optimizers are copies', allin(a.len, lambda i: eq(sel(b.el, i), made(sel(a.el, i)))))
            elif nm == 'neurons':
                ex.post('as many neurons', eq(b.len, a.len))
                for (p, x), (_, y) in zip(leaves(a.el), leaves(b.el)):
                    path = '.'.join(p)
                    if p[-1] == 'optimizer': ex.post('neurons use the given optimizer (%s)' % path, allin(a.len, lambda i: eq(sel(y, i), opt)))
                    else:
                        ex.post('neurons are equal (%s)' % path, allin(a.len, lambda i: leafeq(sel(y, i), sel(x, i))))
                        if lastsort(x.sort) in ('Ref', 'Ptr', 'Obj'): ex.post('%s of neurons may be shared' % path, B(p[-1] in SHARED))
            else:
                ex.post('%s is equal' % nm, treeeq(b, a))
                for p, x in pointers(b): ex.post('%s.%s may be shared' % (nm, '.'.join(p)), FALSE)
        return ex
    return u
def optimizers(P):
    exs = []
    for cls in concrete(P, 'LayerOptimizer'):
        ex = Ctx(P, cls + ' clone'); exs.append(ex)
        o = ex.obj('optimizer', cls); s = ex.read(o)
        new = ex.obj('new layer', 'FullyConnected')
        r = ex.go(virtual(P, cls, 'clone'), o, (Ptr(new),))
        unchanged(ex, 'clone', o, s)
        ok = isinstance(r, Un) and isinstance(r.t, St) and r.t.cls == cls
        ex.post('the copy is of the same kind', B(ok))
        if not ok: continue
        for nm in s.f:
            if nm == 'layer': ex.post('the copy belongs to the new layer', B(ex.ptrs.get(r.t.f['layer']) is not None and ex.ptrs[r.t.f['layer']].same(new)))
            elif nm == 'dist': pass      # a distribution without a state
            else:
                ex.post('%s is equal' % nm, treeeq(r.t.f[nm], s.f[nm]))
                for p, x in pointers(r.t.f[nm]): ex.post('%s may be shared' % nm, FALSE)
    return exs
def sgd(P):
    exs = []
    for cls in concrete(P, 'NeuralNetworkOptimizer'):
        ex = Ctx(P, cls + ' clone'); exs.append(ex)
        o = ex.obj('optimizer', cls); s = ex.read(o)
        r = ex.go(virtual(P, cls, 'clone'), o, ())
        unchanged(ex, 'clone', o, s)
        t = ex.shared_objects.get(r)
        ex.post('a new object of the same kind', B(isinstance(t, St) and t.cls == cls))
        if t is None: continue
        for nm in s.f:
            ex.post('%s is equal' % nm, treeeq(t.f[nm], s.f[nm]))
            for p, x in pointers(t.f[nm]): ex.post('%s may be shared' % nm, FALSE)
    return exs
def network(P):
    ex = Ctx(P, 'network copy')
    cls = 'StraightforwardNeuralNetwork'
    o = ex.obj('network', cls); s = ex.read(o)
    new = V('cloned optimizer', 'Ref')
    def cl(e, fn, ref, args, n):
        e.oblig('post', 'the optimizer of the original is cloned', eq(ref, s.f['optimizer']), n)
        return new
    ex.contracts['ref:clone'] = cl
    made = lambda x, p: app('clone', [x, p], 'Obj')
    def lay(e, fn, lv, args, n): return made(e.read(lv), e.val(args[0]))
    ex.contracts['obj:clone'] = lay
    ex.contracts['obj:getNumberOfOutputs'] = ex.contracts['*::getNumberOfOutputs'] = lambda e, fn, lv, args, n: V('outputs')
    ex.req(le(I(0), V('outputs')))
    c = P.classes[cls]
    f = [P.bodies[m['mangledName']] for m in c.methods if m['kind'] == 'CXXConstructorDecl' and ex.is_copy_node(cls, m)]
    lv = ex.newroot('copy', ex.rawobj(cls))
    outs = ex.run(f[0], lv, (o,), ctor=True)
    for out in outs:
        ex.S = out.st
        # a copy is idle: it is only refused in a state the constructor itself never makes
        if out.thrown is not None: ex.post('a network can be copied', FALSE); continue
        unchanged(ex, 'copying', o, s)
        t = ex.read(lv)
        a, b = s.f['layers'], t.f['layers']
        ex.post('the copy has its own optimizer', eq(t.f['optimizer'], new))
        ex.post('as many layers', eq(b.len, a.len))
        ex.post('every layer of the copy is a copy that uses the optimizer of the copy', allin(a.len, lambda i: eq(sel(b.el, i), made(sel(a.el, i), new))))
        for nm in ('autoSaveFilePath', 'autoSaveWhenBetter', 'index', 'epoch', 'numberOfTrainingsBetweenTwoEvaluations', 'outputNan', 'numberOfTraining'):
            ex.post('%s is equal' % nm, treeeq(t.f[nm], s.f[nm]))
        for nm in t.f:
            if nm in ('layers', 'optimizer'): continue
            for p, x in pointers(t.f[nm]): ex.post('%s may be shared' % nm, FALSE)
    return ex
LAY = ['FullyConnected', 'Recurrence', 'GruLayer', 'Convolution1D', 'Convolution2D', 'LocallyConnected1D', 'LocallyConnected2D', 'MaxPooling1D', 'MaxPooling2D']
def every(P):
    ex = Ctx(P, 'kinds')
    ex.post('every kind of layer is copied', B(concrete(P, 'BaseLayer') == sorted(LAY)))
    return ex
UNITS = [('network', network), ('optimizers of layers', optimizers), ('optimizers of networks', sgd)] + [(c, layer(c)) for c in LAY] + [('kinds of layers', every)]
