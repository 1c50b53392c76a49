from .calculus import *
ASSUME = ['floating point numbers are mathematical reals; exp, tanh and pow are the mathematical functions with exp(u)*exp(-u) = 1, tanh(u) = (exp(2u)-1)/(exp(2u)+1) and the usual derivatives']
KINDS = ['sigmoid', 'iSigmoid', 'tanh', 'ReLU', 'GELU', 'gaussian', 'identity']
def table(ex, P):
    """run initialize(), install its result as the static table"""
    fn = P.find('ActivationFunction::initialize')
    v = ex.go(fn, None, ())
    g = [m for m, (n, tu) in P.globals.items() if n.get('name') == 'activationFunctions'][0]
    ex.S.mem['g:' + g] = v
    return v
def select(ex, P, kind):
    r = ex.go(P.find('ActivationFunction::get'), None, (I(P.enums[('activation', kind)]),))
    if r not in ex.shared_objects: raise Unsupported('activation object')
    return LV(r.args[0].split('(')[1].rstrip(')')) if False else ex.newroot('obj:' + kind, ex.shared_objects[r])
def method(P, ex, o, name):
    cls = ex.read(o).cls
    c = P.classes[cls]
    m = next(x for x in c.methods if x.get('name') == name)
    return P.bodies[m['mangledName']]
def kind(k):
    def u(P):
        ex = Ctx(P, k)
        table(ex, P)
        o = select(ex, P, k)
        ex.post('the name selects the function of this kind', eq(ex.go(method(P, ex, o, 'getType'), o), I(P.enums[('activation', k)])))
        x = V('x', 'Real')
        f = ex.go(method(P, ex, o, 'function'), o, (x,))
        g = ex.go(method(P, ex, o, 'derivative'), o, (x,))
        edge = []
        d = D(f, x, edge)
        rateq(ex, 'derivative is the derivative of the function', d, g, x, [ne(e, R(0)) for e in edge])
        # borders where the function is differentiable all the same are outside (kinks of the rectifier)
        E = lambda u: app('exp', [u], 'Real')
        if k == 'sigmoid': rateq(ex, 'sigmoid is 1/(1+exp(-x))', f, inv(add(R(1), E(neg(x)))), x)
        if k == 'tanh': rateq(ex, 'tanh is tanh', f, app('tanh', [x], 'Real'), x)
        if k == 'gaussian': rateq(ex, 'gaussian is exp(-x*x)', f, E(neg(mul(x, x))), x)
        if k == 'ReLU': ex.post('the rectifier is max(0, x)', eq(f, ite(lt(R(0), x), x, R(0))))
        if k == 'identity': ex.post('identity returns its input', eq(f, x))
        rng = {'sigmoid': (0, 1), 'gaussian': (0, 1), 'tanh': (-1, 1), 'ReLU': (0, None)}.get(k)
        if rng:
            ex.post('lower end of the range', le(R(rng[0]), f))
            if rng[1] is not None: ex.post('upper end of the range', le(f, R(rng[1])))
        return ex
    return u
UNITS = [(k, kind(k)) for k in KINDS]
