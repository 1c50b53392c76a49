"""Contracts of the standard library functions the repository uses (trusted; listed in the evidence)."""
from term import *
from mem import *
from prog import *
from prog import Unsupported
import itertools
_n = itertools.count()

class StdMixin:
    # ---------------------------------------------------------------- helpers
    def trust(self, what): self.trusted.add(what)
    def freshname(self, s): return '%s~%d' % (s, next(_n))
    def vec(self, x):
        t = self.read(x) if isinstance(x, LV) else x
        if not isinstance(t, Ve): raise Unsupported('vector expected, got %r' % (t,))
        return t
    def inrange(self, i, n, node, what='index in range'):
        self.oblig('safety', what, and_(le(I(0), i), lt(i, n)), node)
    def at(self, base, i, n):
        v = self.vec(base)
        self.inrange(i, v.len, n)
        if isinstance(base, LV): return base.i(i)
        return tsel(v.el, i)
    def deft(self, v):
        """a default element shaped like the elements of v"""
        return tmap(lambda a: self.zeroleaf(a.sort), tsel(v.el, I(0)))
    def resized(self, v, n, x):
        x = self.coerce(x, tsel(v.el, I(0)))
        el = tmap(lambda a, b: lam(lambda i: ite(lt(i, v.len), sel(a, i), b)), v.el, x)
        return Ve(n, el)
    def setw(self, lv, v): self.write(lv, v)
    def range_of(self, x, n):
        """(LV or tree, from, to) of a range argument"""
        x2 = x
        return x2, I(0), self.vec(x2).len

    # ---------------------------------------------------------------- methods
    def stdmethod(self, base, name, args, n, basen):
        if name == 'operator bool':
            v = self.val(base)
            return self.tobool(v) if not isinstance(v, (Un,)) else TRUE
        if isinstance(base, LV):
            t = self.read(base)
        else: t = base
        if isinstance(t, Ve): return self.vecmethod(base, t, name, args, n)
        if isinstance(t, (Un,)) or (isinstance(t, T) and t.sort in ('Obj', 'Ref')):
            if name == 'get':
                if isinstance(t, T) and t.sort == 'Ref': return t
                if isinstance(t, Un): return Ptr(base.d())
                if isinstance(base, LV): return Ptr(base)
                raise Unsupported('get of a temporary')
        if isinstance(t, Opt):
            if name == 'has_value': return t.has
            if name == 'value': return base.d()
        if isinstance(t, T) and t.sort == 'Int' and name == 'count': return t
        if isinstance(t, T) and t.sort == 'Str':
            for a in args: self.ev(a)
            if name in ('empty',): return app('str.empty', [t], 'Bool')
            if name in ('length', 'size'): return app('str.len', [t], 'Int')
            if name == 'c_str': return t
        if isinstance(t, T) and t.sort == 'Type' and name == 'hash_code':
            self.trust('type_info::hash_code is injective')
            return t
        if isinstance(t, T) and t.sort in ('Opq', 'Thread'):
            h = self.contracts.get('std:' + name)
            if h: return h(self, base, args, n)
            for a in args: self.ev(a)
            if name in ('joinable',): return self.freshleaf(self.freshname('joinable'), 'Bool')
            if name == 'join': return None
            if name in ('str', 'what'): return self.freshleaf(self.freshname('str'), 'Str')
        raise Unsupported('method %s of %r' % (name, t if not isinstance(t, T) else t.sort))
    def vecmethod(self, base, v, name, args, n):
        lv = base if isinstance(base, LV) else None
        if name == 'size': return v.len
        if name == 'empty': return eq(v.len, I(0))
        if name in ('begin', 'cbegin'):
            if lv is None: lv = self.tmp(n, base)
            return It(lv, I(0))
        if name in ('end', 'cend'):
            if lv is None: lv = self.tmp(n, base)
            return It(lv, v.len)
        if name == 'data':
            return It(lv, I(0))
        if name in ('back', 'front'):
            self.oblig('safety', name + ' of a non empty vector', lt(I(0), v.len), n)
            i = sub(v.len, I(1)) if name == 'back' else I(0)
            return lv.i(i) if lv is not None else tsel(v.el, i)
        if name in ('operator[]', 'at'):
            return self.at(base, self.rv(args[0]), n)
        if lv is None: raise Unsupported('%s on a temporary vector' % name)
        if name in ('push_back', 'emplace_back'):
            x = [self.rv(a) for a in args]
            if name == 'emplace_back' and not (len(x) == 1 and self.samekind(x[0], tsel(v.el, I(0)))):
                return self.emplace(lv, v, args, x, n)
            v = self.vec(lv)
            x = self.coerce(x[0], tsel(v.el, I(0)))
            self.write(lv, Ve(add(v.len, I(1)), tsto(v.el, v.len, x)))
            return lv.i(v.len)
        if name == 'pop_back':
            self.oblig('safety', 'pop_back of a non empty vector', lt(I(0), v.len), n)
            self.write(lv, Ve(sub(v.len, I(1)), v.el)); return None
        if name == 'clear':
            self.write(lv, Ve(I(0), v.el)); return None
        if name == 'reserve':
            k = self.rv(args[0]); return None
        if name == 'resize':
            a = [x for x in args if x.get('kind') != 'CXXDefaultArgExpr']
            k = self.rv(a[0])
            self.oblig('safety', 'vector size not negative', le(I(0), k), n)
            x = self.rv(a[1]) if len(a) > 1 else self.resize_default(lv, v, n)
            v = self.vec(lv)
            self.write(lv, self.resized(v, k, x)); return None
        if name == 'insert':
            it = self.rv(args[0])
            rest = [self.rv(a) for a in args[1:]]
            v = self.vec(lv)
            if len(rest) == 2 and all(isinstance(r, It) for r in rest) and it.idx is v.len:
                src = self.read(rest[0].lv); b, e = rest[0].idx, rest[1].idx
                self.oblig('safety', 'iterator range', and_(le(I(0), b), le(b, e), le(e, src.len)), n)
                el = tmap(lambda a, s: lam(lambda i: ite(lt(i, v.len), sel(a, i), sel(s, add(sub(i, v.len), b)))), v.el, src.el)
                self.write(lv, Ve(add(v.len, sub(e, b)), el)); return It(lv, v.len)
            raise Unsupported('insert')
        if name == 'assign':
            k, x = [self.rv(a) for a in args]
            self.oblig('safety', 'vector size not negative', le(I(0), k), n)
            x = self.coerce(x, tsel(v.el, I(0)))
            self.write(lv, Ve(k, tmap(lambda a: mk('lam', (a,), ('A', a.sort)), x))); return None
        raise Unsupported('vector method ' + name)
    def samekind(self, x, e):
        if isinstance(e, T): return isinstance(x, T) or (e.sort == 'Obj' and isinstance(x, Un)) or (isinstance(x, Ptr))
        if isinstance(e, St): return isinstance(x, St)
        return type(x) is type(e)
    def elemtype(self, n):
        """element type of the vector a method call is made on"""
        c = n['inner'][0]
        while c.get('kind') in ('ParenExpr', 'ImplicitCastExpr'): c = c['inner'][0]
        b = c['inner'][0]
        while b.get('kind') in ('ParenExpr', 'ImplicitCastExpr') and 'vector' not in b['type'].get('desugaredQualType', b['type']['qualType']): b = b['inner'][0]
        ty = self.type(b)
        while ty[0] in ('ref', 'ptr'): ty = ty[1]
        if ty[0] != 'vec': raise Unsupported('element type')
        return ty[1]
    def resize_default(self, lv, v, n):
        e = tsel(v.el, I(0))
        if isinstance(e, St): return self.construct(e.cls, None, [], n)
        return self.deft(v)
    def emplace(self, lv, v, args, x, n):
        e = tsel(v.el, I(0))
        if not isinstance(e, St): raise Unsupported('emplace_back')
        c = self.prog.classes[e.cls]
        ms = [m for m in c.methods if m['kind'] == 'CXXConstructorDecl' and not m.get('isImplicit')
              and len([p for p in m.get('inner', []) if p['kind'] == 'ParmVarDecl']) == len(args)]
        if len(ms) != 1: raise Unsupported('emplace_back constructor')
        o = self.construct(e.cls, ms[0]['type']['qualType'], args, n)
        v = self.vec(lv)
        self.write(lv, Ve(add(v.len, I(1)), tsto(v.el, v.len, o)))
        return lv.i(v.len)

    # ---------------------------------------------------------------- operators
    def stdop(self, name, args, n):
        if name == 'operator[]':
            base = self.ev(args[0]); i = self.rv(args[1])
            b = self.read(base) if isinstance(base, LV) else base
            if isinstance(b, It): return self.deref_it(It(b.lv, add(b.idx, i)), n)
            return self.at(base, i, n)
        if name in ('operator->', 'operator*') and len(args) == 1:
            base = self.ev(args[0])
            t = self.read(base) if isinstance(base, LV) else base
            if isinstance(t, It):
                r = self.deref_it(t, n)
                return Ptr(r) if name == 'operator->' else r
            if isinstance(t, Un):
                if not isinstance(base, LV): base = self.tmp(n, base)
                return Ptr(base.d()) if name == 'operator->' else base.d()
            if isinstance(t, Opt):
                return Ptr(base.d()) if name == 'operator->' else base.d()
            if isinstance(t, T) and t.sort == 'Obj':
                if not isinstance(base, LV): base = self.tmp(n, base)
                return Ptr(base) if name == 'operator->' else base
            if isinstance(t, T) and t.sort == 'Ref': return t if name == 'operator->' else ('ref', t)
            raise Unsupported('%s of %r' % (name, t))
        if name in ('operator++', 'operator--'):
            x = self.ev(args[0]); v = self.read(x)
            if isinstance(v, It):
                nv = It(v.lv, add(v.idx, I(1 if name == 'operator++' else -1)))
                self.write(x, nv)
                return v if len(args) == 2 else x
        if name == 'operator=':
            x = self.ev(args[0]); v = self.rv(args[1])
            if not isinstance(x, LV):
                raise Unsupported('assignment to a value')
            if isinstance(v, Ptr): v = self.ptrleaf(v)
            t = self.read(x)
            if isinstance(t, T) and isinstance(v, T) and t.sort != v.sort:
                if v.op == 'lit' and v.args[0] == 'null': v = lit('null', t.sort)
                elif t.sort == 'Real': v = toreal(v)
            self.write(x, v); return x
        if name in ('operator==', 'operator!=') and len(args) == 2:
            a, b = self.ev(args[0]), self.ev(args[1])
            e = self.equals(a, b, n)
            return e if name == 'operator==' else not_(e)
        if name in ('operator<', 'operator>', 'operator<=', 'operator>='):
            a, b = self.rv(args[0]), self.rv(args[1])
            return self.compare(name[8:], a, b, n)
        if name in ('operator+', 'operator-') and len(args) == 2:
            a, b = self.rv(args[0]), self.rv(args[1])
            if isinstance(a, T) and a.sort == 'Str' or isinstance(b, T) and b.sort == 'Str':
                return self.freshleaf(self.freshname('str'), 'Str')
            if isinstance(a, T) and a.sort == 'Opq' and isinstance(b, T) and b.sort == 'Opq' and name == 'operator-':
                return app('timediff', [a, b], 'Int')
            return self.arith(name[8:], a, b, ('int',), n)
        if name in ('operator+=', 'operator-=') and len(args) == 2:
            x = self.ev(args[0]); b = self.rv(args[1]); a = self.read(x)
            if isinstance(a, It):
                self.write(x, It(a.lv, add(a.idx, b if name == 'operator+=' else neg(b)))); return x
            if isinstance(a, T) and a.sort == 'Str':
                self.write(x, self.freshleaf(self.freshname('str'), 'Str')); return x
        if name in ('operator<<', 'operator>>'):
            return self.stream(name, args, n)
        raise Unsupported('operator %s' % name)
    def stream(self, name, args, n):
        x = self.ev(args[0])
        v = self.ev(args[1])
        return x
    def equals(self, a, b, n):
        x, y = self.val(a), self.val(b)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if isinstance(x, Un) or isinstance(y, Un): return FALSE
            return self.compare('==', x, y, n)
        if isinstance(x, T) and isinstance(y, T):
            if x.sort != y.sort: return self.compare('==', x, y, n)
            return eq(x, y)
        if isinstance(x, It): return eq(x.idx, y.idx)
        if isinstance(x, Ve) and isinstance(y, Ve): return self.veceq(x, y, n)
        if isinstance(x, St) and isinstance(y, St):
            return self.objeq(x, y, n)
        raise Unsupported('== on %r, %r' % (x, y))
    def objeq(self, x, y, n):
        """operator== of class objects, through the operator of their class"""
        c = self.prog.classes.get(x.cls)
        for m in c.methods:
            if m.get('name') == 'operator==':
                fn = self.prog.bodies.get(m.get('mangledName')) or self.prog.decls.get(m.get('mangledName'))
                if fn is None: break
                if fn.body is None:
                    if m.get('explicitlyDefaulted'): break
                    raise Unsupported('no body for operator== of ' + x.cls)
                r1, r2 = self.freshname('cmpl'), self.freshname('cmpr')
                self.S.mem[r1] = x; self.S.mem[r2] = y
                return self.val(self.invoke(fn, LV(r1), [LV(r2)], n))
        return and_(*[self.equals(x.f[k], y.f[k], n) for k in x.f])
    def veceq(self, x, y, n):
        ex = tsel(x.el, I(0))
        if isinstance(ex, T) and not isinstance(ex.sort, tuple):
            return and_(eq(x.len, y.len), forall(['Int'], lambda i: implies(and_(le(I(0), i), lt(i, x.len)), eq(sel(x.el, i), sel(y.el, i)))))
        i = fresh('q', 'Int')
        base = self.S; nf = len(self.facts)
        self.S = base.fork(and_(le(I(0), i), lt(i, x.len), lt(i, y.len)))
        oldc = self.ctx; self.ctx = oldc + (i,)
        try: e = self.equals(tsel(x.el, i), tsel(y.el, i), n)
        finally: self.S = base; self.ctx = oldc
        self.closefacts(nf, i)
        return and_(eq(x.len, y.len), abstract_forall([i], implies(and_(le(I(0), i), lt(i, x.len)), e)))
    def closefacts(self, nf, *vs):
        new = self.facts[nf:]; del self.facts[nf:]
        for f in new:
            use = [v for v in vs if occurs(v, f)]
            self.facts.append(abstract_forall(use, f) if use else f)
            if f in self.aux: self.aux.add(self.facts[-1])

    # ---------------------------------------------------------------- functions
    def pure(self, f):
        """evaluate f in a copy of the state that must not change"""
        base = self.S
        self.S = base.fork()
        try: return f()
        finally: self.S = base
    def stdcall(self, name, args, n, ref):
        h = self.contracts.get('std:' + name)
        if h:
            r = h(self, args, n)
            if r is not NotImplemented: return r
        if name.startswith('__builtin_nan'):
            self.assumed.add('not-a-number is an unknown value of its type'); return var('not-a-number', 'Real')
        m = getattr(self, 'std_' + name, None)
        if m is None:
            raise Unsupported('library function ' + str(name))
        return m([a for a in args if a.get('kind') != 'CXXDefaultArgExpr'], n)
    def std_max(self, args, n):
        if not args: return self.limit('max', n)
        if len(args) == 1:
            x = self.ev(args[0])
            v = self.vec(x)
            return self.extremum(v, n, True)
        a, b = self.rv(args[0]), self.rv(args[1])
        if a.sort == 'Int' and a.loose == 0 and b.loose == 0:
            if self.nonneg(sub(a, b)): return a
            if self.nonneg(sub(b, a)): return b
        return ite(lt(a, b), b, a)
    def std_min(self, args, n):
        if len(args) == 1: return self.extremum(self.vec(self.ev(args[0])), n, False)
        a, b = self.rv(args[0]), self.rv(args[1])
        if a.sort == 'Int' and a.loose == 0 and b.loose == 0:
            if self.nonneg(sub(b, a)): return a
            if self.nonneg(sub(a, b)): return b
        return ite(lt(b, a), b, a)
    def extremum(self, v, n, mx):
        self.oblig('safety', 'maximum of a non empty range', lt(I(0), v.len), n)
        self.trust('ranges::max returns an element no other element exceeds')
        w = self.freshleaf(self.freshname('argmax'), 'Int')
        m = sel(v.el, w)
        self.assume(and_(le(I(0), w), lt(w, v.len)))
        self.assume(forall(['Int'], lambda i: implies(and_(le(I(0), i), lt(i, v.len)), le(sel(v.el, i), m) if mx else le(m, sel(v.el, i)))))
        return m
    def std_abs(self, args, n):
        a = self.rv(args[0])
        return ite(le(num(0, a.sort), a), a, neg(a))
    std_fabs = std_abs
    def real1(self, f, args):
        a = self.castto(self.rv(args[0]), ('real',), None)
        return app(f, [a], 'Real')
    def std_exp(self, args, n): return self.real1('exp', args)
    std_expf = std_exp
    def std_tanh(self, args, n): return self.real1('tanh', args)
    std_tanhf = std_tanh
    def std_erf(self, args, n): return self.real1('erf', args)
    std_erff = std_erf
    def std_sqrt(self, args, n): return self.real1('sqrt', args)
    std_sqrtf = std_sqrt
    def std_pow(self, args, n):
        a = self.castto(self.rv(args[0]), ('real',), None); b = self.rv(args[1])
        b = self.castto(b, ('real',), None)
        if b.op == 'num' and b.args[0].denominator == 1 and 0 <= b.args[0] <= 8:
            r = R(1)
            for _ in range(int(b.args[0])): r = mul(r, a)
            return r
        return app('pow', [a, b], 'Real')
    std_powf = std_pow
    def std_move(self, args, n):
        if len(args) == 1: return self.ev(args[0])
        # ranges::move(range, back_inserter(v))
        src = self.ev(args[0]); dst = self.rv(args[1])
        if isinstance(dst, tuple) and dst[0] == 'backins':
            s = self.vec(src); v = self.vec(dst[1])
            el = tmap(lambda a, b: lam(lambda i: ite(lt(i, v.len), sel(a, i), sel(b, sub(i, v.len)))), v.el, s.el)
            self.write(dst[1], Ve(add(v.len, s.len), el)); return None
        raise Unsupported('ranges::move')
    def std_back_inserter(self, args, n): return ('backins', self.ev(args[0]))
    def std_forward(self, args, n): return self.ev(args[0])
    std_as_const = std_ref = std_cref = std_forward
    def std_size(self, args, n): return self.vec(self.ev(args[0])).len
    def std_begin(self, args, n): return It(self.aslv(self.ev(args[0]), n), I(0))
    def std_end(self, args, n):
        lv = self.aslv(self.ev(args[0]), n); return It(lv, self.vec(lv).len)
    std_cbegin = std_begin; std_cend = std_end
    def std_distance(self, args, n):
        a, b = self.rv(args[0]), self.rv(args[1]); return sub(b.idx, a.idx)
    def std_next(self, args, n):
        a = self.rv(args[0]); k = self.rv(args[1]) if len(args) > 1 else I(1); return It(a.lv, add(a.idx, k))
    def std_to_string(self, args, n):
        self.rv(args[0]); return self.freshleaf(self.freshname('str'), 'Str')
    def std_fpclassify(self, args, n):
        a = self.castto(self.rv(args[0]), ('real',), None)
        self.assumed.add('floating point numbers are mathematical reals: no value is NaN, infinite or subnormal')
        return ite(eq(a, R(0)), I(2), I(4))
    def std___builtin_fpclassify(self, args, n):
        a = self.castto(self.rv(args[-1]), ('real',), None)
        return ite(eq(a, R(0)), self.rv(args[4]), self.rv(args[2]))
    def std_isnan(self, args, n):
        self.rv(args[0]); self.assumed.add('floating point numbers are mathematical reals: no value is NaN, infinite or subnormal'); return FALSE
    std_isinf = std_isnan
    def std_isfinite(self, args, n): self.rv(args[0]); return TRUE
    std_isnormal = lambda self, args, n: ne(self.castto(self.rv(args[0]), ('real',), None), R(0))
    def limit(self, what, n):
        b = self.intrange(n)
        if b: return I(b[1] if what == 'max' else b[0])
        self.assumed.add('numeric_limits<...>::%s is an arbitrary value of its type' % what)
        ty = self.type(n)
        return var('limit:%s:%s' % (what, ty), 'Int' if ty[0] in ('int', 'uint') else 'Real')
    def std_infinity(self, args, n): return self.limit('infinity', n)
    def std_lowest(self, args, n): return self.limit('lowest', n)
    def std_epsilon(self, args, n): return self.limit('epsilon', n)
    def std_now(self, args, n): return self.freshleaf(self.freshname('now'), 'Opq')
    def std_duration_cast(self, args, n): return self.rv(args[0])
    def std_sleep_for(self, args, n): return None
    def std_make_unique(self, args, n):
        ty = self.type(n)
        return self.make(ty[1], args, n)
    def make(self, ty, args, n):
        if ty[0] != 'cls': raise Unsupported('make_unique of %s' % (ty,))
        cls = ty[1]
        c = self.prog.classes[cls]
        if len(args) == 1:
            at = self.type(args[0])
            while at[0] == 'ref': at = at[1]
            if at == ('cls', cls): 
                ct = next((m['type']['qualType'] for m in c.methods if m['kind'] == 'CXXConstructorDecl' and self.is_copy_node(cls, m)), 'void (const %s &)' % cls)
                return Un(self.construct(cls, ct, args, n))
        ms = [m for m in c.methods if m['kind'] == 'CXXConstructorDecl' and not m.get('isImplicit')
              and len([p for p in m.get('inner', []) if p['kind'] == 'ParmVarDecl']) == len(args)]
        if len(args) == 1: ms = [m for m in ms if not self.is_copy_node(cls, m)]
        if len(ms) > 1:
            # choose by the type of the first argument
            at = self.type(args[0])
            while at[0] == 'ref': at = at[1]
            def first(m):
                p = self.type([p for p in m['inner'] if p['kind'] == 'ParmVarDecl'][0])
                while p[0] == 'ref': p = p[1]
                return p
            ms2 = [m for m in ms if first(m) == at]
            ms = ms2 or ms
        if len(ms) != 1: raise Unsupported('make_unique constructor of %s' % cls)
        return Un(self.construct(cls, ms[0]['type']['qualType'], args, n))
    def std_make_shared(self, args, n):
        h = self.contracts.get('std:make_shared')
        ty = self.type(n)
        o = self.make(ty[1], args, n)
        r = self.freshleaf(self.freshname('shared'), 'Ref')
        self.shared_objects[r] = o.t
        self.assume(ne(r, lit('null', 'Ref')))
        return r
    shared_objects = {}
    def std_make_pair(self, args, n): raise Unsupported('pair')
    def std_bind(self, args, n):
        f = self.ev(args[0])
        b = []
        for a in args[1:]:
            x = self.ev(a)
            while isinstance(x, LV): x = self.read(x)
            b.append(x)
        if not isinstance(f, Fun): raise Unsupported('bind')
        return Fun(f.op, b)
    # ---- algorithms, executed as loops
    def algo(self, n, count, step, tag=''):
        """for (i = 0; i < count; ++i) step(i)"""
        root = 'alg%s:%s' % (tag, self.key(n))
        self.S.mem[root] = I(0)
        lv = LV(root)
        def cond(): return lt(self.read(lv), count)
        def body(): step(self.read(lv))
        def inc(): self.write(lv, add(self.read(lv), I(1)))
        nn = dict(n); nn['id'] = n['id'] + tag
        self.loop(nn, cond, body, inc)
        self.S.mem.pop(root, None)
    def elem(self, rng, off, i):
        if isinstance(rng, LV): return rng.i(add(off, i))
        return tsel(self.vec(rng).el, add(off, i))
    def applyf(self, f, args, n):
        if isinstance(f, Fun): return self.funcall(f, [self.val(a) for a in args])
        return self.lamcall(f, args, n)
    def fval(self, a):
        f = self.ev(a)
        if isinstance(f, LV): f = self.read(f)
        return f
    def ranges(self, vals):
        """leading ranges of an argument list: [(rng, off, len)], rest"""
        out = []; i = 0
        while i < len(vals):
            x = self.val(vals[i])
            if isinstance(x, Ve):
                out.append((vals[i], I(0), x.len)); i += 1
            elif isinstance(x, It) and i + 1 < len(vals) and isinstance(self.val(vals[i + 1]), It) and self.val(vals[i + 1]).lv.same(x.lv):
                e = self.val(vals[i + 1]); out.append((x.lv, x.idx, sub(e.idx, x.idx))); i += 2
            else: break
        return out, vals[i:]
    def std_transform(self, args, n):
        vals = [self.ev(a) for a in args]
        f = vals[-1]; f = self.read(f) if isinstance(f, LV) else f
        vals = vals[:-1]
        first = self.val(vals[0])
        if isinstance(first, Ve): ins, rest = self.ranges(vals[:-1]); rest = rest + vals[-1:]
        else:
            b, e = self.val(vals[0]), self.val(vals[1])
            ins = [(b.lv, b.idx, sub(e.idx, b.idx))]; rest = vals[2:]
            if len(rest) == 2:
                b2 = self.val(rest[0]); ins.append((b2.lv, b2.idx, ins[0][2])); rest = rest[1:]
        out = self.val(rest[0])
        cnt = ins[0][2]
        for r in ins[1:]: cnt = ite(lt(r[2], cnt), r[2], cnt)
        if isinstance(out, tuple) and out[0] == 'backins':
            ov = out[1]
            def step(i):
                r = self.applyf(f, [self.elem(a, o, i) for a, o, _ in ins], n)
                v = self.vec(ov)
                self.write(ov, Ve(add(v.len, I(1)), tsto(v.el, v.len, self.val(r))))
            return self.algo(n, cnt, step)
        if not isinstance(out, It): raise Unsupported('transform output')
        self.oblig('safety', 'transform output in range', or_(le(cnt, I(0)), and_(le(I(0), out.idx), le(add(out.idx, cnt), self.vec(out.lv).len))), n)
        def step(i):
            r = self.val(self.applyf(f, [self.elem(a, o, i) for a, o, _ in ins], n))
            t = self.read(out.lv.i(add(out.idx, i)))
            if isinstance(r, T) and isinstance(t, T) and r.sort != t.sort:
                r = self.castto(r, {'Real': ('real',), 'Int': ('int',), 'Bool': ('bool',)}[t.sort], n)
            self.write(out.lv.i(add(out.idx, i)), r)
        self.algo(n, cnt, step)
        return It(out.lv, add(out.idx, cnt))
    def std_for_each(self, args, n):
        vals = [self.ev(a) for a in args]; f = vals[-1]; f = self.read(f) if isinstance(f, LV) else f
        ins, _ = self.ranges(vals[:-1]); a, o, c = ins[0]
        self.algo(n, c, lambda i: self.applyf(f, [self.elem(a, o, i)], n))
        return f
    def std_generate(self, args, n):
        vals = [self.ev(a) for a in args]; f = vals[-1]; f = self.read(f) if isinstance(f, LV) else f
        ins, _ = self.ranges(vals[:-1]); a, o, c = ins[0]
        def step(i):
            r = self.val(self.applyf(f, [], n))
            self.write(a.i(add(o, i)), r)
        self.algo(n, c, step)
    def std_fill(self, args, n):
        vals = [self.ev(a) for a in args]; x = self.val(vals[-1])
        ins, _ = self.ranges(vals[:-1]); a, o, c = ins[0]
        def step(i):
            t = self.read(a.i(add(o, i)))
            v = x
            if isinstance(v, T) and v.sort != t.sort: v = self.castto(v, {'Real': ('real',), 'Int': ('int',), 'Bool': ('bool',)}[t.sort], n)
            self.write(a.i(add(o, i)), v)
        self.algo(n, c, step)
    def std_iota(self, args, n):
        vals = [self.ev(a) for a in args]; x = self.val(vals[-1])
        ins, _ = self.ranges(vals[:-1]); a, o, c = ins[0]
        self.algo(n, c, lambda i: self.write(a.i(add(o, i)), add(x, i)))
    def std_copy(self, args, n):
        vals = [self.ev(a) for a in args]
        if isinstance(self.val(vals[0]), Ve): ins, rest = self.ranges(vals[:1]); rest = vals[1:]
        else:
            b, e = self.val(vals[0]), self.val(vals[1]); ins = [(b.lv, b.idx, sub(e.idx, b.idx))]; rest = vals[2:]
        a, o, c = ins[0]; out = self.val(rest[0])
        if isinstance(out, tuple) and out[0] == 'backins':
            def step(i):
                v = self.vec(out[1]); self.write(out[1], Ve(add(v.len, I(1)), tsto(v.el, v.len, self.val(self.elem(a, o, i)))))
            return self.algo(n, c, step)
        self.oblig('safety', 'copy output in range', or_(le(c, I(0)), and_(le(I(0), out.idx), le(add(out.idx, c), self.vec(out.lv).len))), n)
        self.algo(n, c, lambda i: self.write(out.lv.i(add(out.idx, i)), self.val(self.elem(a, o, i))))
    def fold(self, a, o, c, init, f, n):
        root = self.rootn('acc', n); self.S.mem[root] = init; lv = LV(root)
        def step(i):
            r = self.val(f([self.val(lv), self.elem(a, o, i)]))
            t = self.read(lv)
            if isinstance(r, T) and isinstance(t, T) and r.sort != t.sort:
                r = self.castto(r, {'Real': ('real',), 'Int': ('int',), 'Bool': ('bool',)}[t.sort], n)
            self.write(lv, r)
        self.algo(n, c, step)
        v = self.read(lv); self.S.mem.pop(root, None)
        return v
    def rootn(self, s, n): return '%s:%s' % (s, self.key(n))
    def std_accumulate(self, args, n):
        vals = [self.ev(a) for a in args]
        ins, rest = self.ranges(vals[:2]); rest = vals[2:]
        a, o, c = ins[0]; init = self.val(rest[0])
        ty = self.type(n)
        init = self.castto(init, ty, n) if ty[0] in ('real', 'int', 'uint') else init
        if len(rest) > 1:
            g = rest[1]; g = self.read(g) if isinstance(g, LV) else g
            f = lambda xs: self.applyf(g, xs, n)
        else: f = lambda xs: self.arith('+', self.val(xs[0]), self.val(xs[1]), ty, n)
        return self.fold(a, o, c, init, f, n)
    std_reduce = std_accumulate
    def std_inner_product(self, args, n):
        vals = [self.ev(a) for a in args]
        b, e, b2 = [self.val(x) for x in vals[:3]]; init = self.castto(self.val(vals[3]), self.type(n), n)
        c = sub(e.idx, b.idx)
        self.oblig('safety', 'second range long enough', le(add(b2.idx, c), self.vec(b2.lv).len), n)
        root = self.rootn('acc', n); self.S.mem[root] = init; lv = LV(root)
        def step(i):
            x, y = self.read(b.lv.i(add(b.idx, i))), self.read(b2.lv.i(add(b2.idx, i)))
            self.write(lv, add(self.read(lv), mul(x, y)))
        self.algo(n, c, step)
        v = self.read(lv); self.S.mem.pop(root, None); return v
    def quant(self, args, n, universal, negate=False):
        vals = [self.ev(a) for a in args]; f = vals[-1]; f = self.read(f) if isinstance(f, LV) else f
        ins, _ = self.ranges(vals[:-1]); a, o, c = ins[0]
        i = fresh('q', 'Int'); base = self.S; nf = len(self.facts)
        rg = and_(le(I(0), i), lt(i, c))
        self.S = base.fork(rg); oldc = self.ctx; self.ctx = oldc + (i,)
        try: p = self.tobool(self.val(self.applyf(f, [self.elem(a, o, i)], n)))
        finally: self.S = base; self.ctx = oldc
        self.closefacts(nf, i)
        if negate: p = not_(p)
        if universal: return abstract_forall([i], implies(rg, p))
        return not_(abstract_forall([i], implies(rg, not_(p))))
    def std_any_of(self, args, n): return self.quant(args, n, False)
    def std_all_of(self, args, n): return self.quant(args, n, True)
    def std_none_of(self, args, n): return self.quant(args, n, True, True)
    def std_equal(self, args, n):
        vals = [self.val(self.ev(a)) for a in args]
        if all(isinstance(v, Ve) for v in vals) and len(vals) == 2: return self.veceq(vals[0], vals[1], n)
        raise Unsupported('equal')
    def std_max_element(self, args, n, mx=True):
        vals = [self.ev(a) for a in args]
        ins, _ = self.ranges(vals); a, o, c = ins[0]
        self.trust('max_element returns the first greatest element')
        w = self.freshleaf(self.freshname('argmax'), 'Int')
        v = self.vec(a)
        self.assume(implies(lt(I(0), c), and_(le(o, w), lt(w, add(o, c)))))
        self.assume(implies(le(c, I(0)), eq(w, add(o, c))))
        op = (lambda x, y: le(x, y)) if mx else (lambda x, y: le(y, x))
        st = (lambda x, y: lt(x, y)) if mx else (lambda x, y: lt(y, x))
        self.assume(forall(['Int'], lambda i: implies(and_(le(o, i), lt(i, add(o, c))), op(sel(v.el, i), sel(v.el, w)))))
        self.assume(forall(['Int'], lambda i: implies(and_(le(o, i), lt(i, w)), st(sel(v.el, i), sel(v.el, w)))))
        return It(self.aslv(a, n), w)
    def std_min_element(self, args, n): return self.std_max_element(args, n, False)
    def std_swap(self, args, n):
        a, b = self.ev(args[0]), self.ev(args[1])
        x, y = self.read(a), self.read(b)
        self.write(a, y); self.write(b, x)
    def std_shuffle(self, args, n):
        vals = [self.ev(a) for a in args]
        ins, _ = self.ranges(vals[:1])
        if not ins:
            ins, _ = self.ranges(vals[:2])
        a, o, c = ins[0]
        v = self.vec(a)
        self.trust('ranges::shuffle permutes the elements of the range')
        pi, rho = self.freshname('perm'), self.freshname('permInv')
        P = lambda i: app(pi, self.ctx + (i,), 'Int')
        Q = lambda i: app(rho, self.ctx + (i,), 'Int')
        inr = lambda i: and_(le(I(0), i), lt(i, c))
        self.assume(forall(['Int'], lambda i: implies(inr(i), and_(inr(P(i)), eq(Q(P(i)), i)))))
        self.assume(forall(['Int'], lambda i: implies(inr(i), and_(inr(Q(i)), eq(P(Q(i)), i)))))
        self.last_perm = (P, Q, c)
        el = tmap(lambda x: lam(lambda i: ite(and_(le(o, i), lt(i, add(o, c))), sel(x, add(o, P(sub(i, o)))), sel(x, i))), v.el)
        self.write(a, Ve(v.len, el))
    def e_ArraySubscriptExpr(self, n):
        b, i = n['inner']
        base = self.ev(b); i = self.rv(i)
        if isinstance(base, It) and base.idx is I(0): base = base.lv
        if isinstance(base, LV):
            t = self.read(base)
            if isinstance(t, Ve): return self.at(base, i, n)
            base = t
        if isinstance(base, T) and base in self.ptrs: base = Ptr(self.ptrs[base])
        if isinstance(base, Ptr) and base.lv is not None:
            t = self.read(base.lv)
            if isinstance(t, Ve): return self.at(base.lv, i, n)
            if base.lv.path and base.lv.path[-1][0] == 'i':
                p = base.lv.path[:-1]; lv = LV(base.lv.root, p); return self.at(lv, add(base.lv.path[-1][1], i), n)
        if isinstance(base, It): return self.deref_it(It(base.lv, add(base.idx, i)), n)
        raise Unsupported('subscript of %r' % (base,))
    ptrs = {}
