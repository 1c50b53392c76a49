"""Memory trees: every C++ value is a tree whose leaves are terms; a vector lifts the leaves of its element one array level."""
from term import *
from prog import Unsupported

class St:
    __slots__ = ('cls', 'f')
    def __init__(self, cls, f): self.cls = cls; self.f = f
class Ve:
    __slots__ = ('len', 'el')
    def __init__(self, l, el): self.len = l; self.el = el
class LV:
    __slots__ = ('root', 'path')
    def __init__(self, root, path=()): self.root = root; self.path = tuple(path)
    def f(self, *names): return LV(self.root, self.path + tuple(('f', n) for n in names))
    def i(self, idx): return LV(self.root, self.path + (('i', idx),))
    def d(self): return LV(self.root, self.path + (('d',),))
    def same(self, o): return self.root == o.root and self.path == o.path
    def __repr__(self): return 'LV(%s%s)' % (self.root, ''.join('.' + p[1] if p[0] == 'f' else '[%s]' % (p[1],) if p[0] == 'i' else '*' for p in self.path))
class Ptr:      # lv None = null
    __slots__ = ('lv',)
    def __init__(self, lv): self.lv = lv
class It:
    __slots__ = ('lv', 'idx')
    def __init__(self, lv, idx): self.lv = lv; self.idx = idx
class Un:       # unique_ptr with known content
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
class Opt:
    __slots__ = ('has', 't')
    def __init__(self, has, t): self.has = has; self.t = t
class Lambda:
    def __init__(self, node, frame): self.node = node; self.frame = frame
class Fun:      # std functional object: op in mul/plus/div/minus, bound: list of None(_1)/value
    def __init__(self, op, bound=None): self.op = op; self.bound = bound
class Str:
    def __init__(self, s): self.s = s

def leafsort(ty):
    k = ty[0]
    return {'int': 'Int', 'uint': 'Int', 'real': 'Real', 'bool': 'Bool', 'str': 'Str', 'dur': 'Int', 'shared': 'Ref',
            'ptr': 'Ptr', 'uniq': 'Obj', 'opaque': 'Opq', 'iter': 'Int', 'opt': 'Opq'}.get(k)
def lift(sort, d):
    for _ in range(d): sort = ('A', sort)
    return sort

def build(prog, ty, leaf, path=(), d=0, pf=None):
    """tree of type ty with leaves made by leaf(path, sort)"""
    from prog import parse_type
    k = ty[0]
    if k == 'ref': return build(prog, ty[1], leaf, path, d)
    if k == 'vec':
        if len(ty) > 2:
            n = I(ty[2])
            for _ in range(d): n = mk('lam', (n,), ('A', n.sort))
        return Ve(n if len(ty) > 2 else leaf(path + ('len',), lift('Int', d)), build(prog, ty[1], leaf, path + ('el',), d + 1))
    if k == 'cls':
        return St(ty[1], {n: build(prog, parse_type(prog, t), leaf, path + (n,), d) for n, t, _ in prog.fields(ty[1])})
    s = leafsort(ty)
    if s is None: raise Unsupported('type %s' % (ty,))
    return leaf(path, lift(s, d))

def leaves(t, path=()):
    if isinstance(t, T): yield path, t
    elif isinstance(t, St):
        for n, x in t.f.items(): yield from leaves(x, path + (n,))
    elif isinstance(t, Ve):
        yield path + ('len',), t.len
        yield from leaves(t.el, path + ('el',))
    elif isinstance(t, Un): yield from leaves(t.t, path + ('*',))
    elif isinstance(t, It): yield path + ('idx',), t.idx
    elif isinstance(t, Opt):
        yield path + ('has',), t.has
        yield from leaves(t.t, path + ('val',))
def getleaf(t, path):
    for p in path:
        if isinstance(t, St): t = t.f[p]
        elif isinstance(t, Ve): t = t.len if p == 'len' else t.el
        elif isinstance(t, Un): t = t.t
        elif isinstance(t, It): t = t.idx
        elif isinstance(t, Opt): t = t.has if p == 'has' else t.t
        else: raise KeyError(path)
    return t
def setleaf(t, path, v):
    if not path: return v
    p, r = path[0], path[1:]
    if isinstance(t, St):
        f = dict(t.f); f[p] = setleaf(t.f[p], r, v); return St(t.cls, f)
    if isinstance(t, Ve):
        return Ve(v, t.el) if p == 'len' else Ve(t.len, setleaf(t.el, r, v))
    if isinstance(t, Un): return Un(setleaf(t.t, r, v))
    if isinstance(t, It): return It(t.lv, v)
    if isinstance(t, Opt): return Opt(v, t.t) if p == 'has' else Opt(t.has, setleaf(t.t, r, v))
    raise KeyError(path)
def pack(v):
    """abstract an owned object of known class into an opaque object value"""
    cls = v.t.cls if isinstance(v.t, St) else '?'
    return app('obj_' + cls, [l for _, l in leaves(v.t)], 'Obj')
def tmap(f, *ts):
    t = ts[0]
    if any(isinstance(x, Un) for x in ts) and (any(isinstance(x, T) for x in ts) or len({getattr(x.t, 'cls', None) for x in ts}) > 1):
        ts = [pack(x) if isinstance(x, Un) else x for x in ts]; t = ts[0]
    if isinstance(t, T): return f(*ts)
    if isinstance(t, St): return St(t.cls, {n: tmap(f, *[x.f[n] for x in ts]) for n in t.f})
    if isinstance(t, Ve): return Ve(tmap(f, *[x.len for x in ts]), tmap(f, *[x.el for x in ts]))
    if isinstance(t, Un): return Un(tmap(f, *[x.t for x in ts]))
    if isinstance(t, Opt): return Opt(tmap(f, *[x.has for x in ts]), tmap(f, *[x.t for x in ts]))
    if isinstance(t, It):
        if not all(isinstance(x, It) and x.lv.same(t.lv) for x in ts): raise Unsupported('iterators of different containers')
        return It(t.lv, tmap(f, *[x.idx for x in ts]))
    if isinstance(t, Ptr):
        if all(isinstance(x, Ptr) and ((x.lv is None) == (t.lv is None)) and (t.lv is None or x.lv.same(t.lv)) for x in ts): return t
        raise Unsupported('pointers to different objects')
    if all(x is t for x in ts): return t
    if isinstance(t, (Lambda, Fun, Str)): return t
    raise Unsupported('tree %r' % (t,))
def tsel(t, i): return tmap(lambda a: sel(a, i), t)
def tsto(t, i, v):
    return tmap(lambda a, b: sto(a, i, b), t, v)
def tite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    return tmap(lambda x, y: ite(c, x, y), a, b)
