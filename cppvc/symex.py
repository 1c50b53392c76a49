"""Symbolic execution of the clang AST with contracts, producing proof obligations."""
import time, hashlib
from term import *
from mem import *
from prog import *
from prog import Unsupported
import solve

class State:
    __slots__ = ('mem', 'pc')
    def __init__(self, mem, pc): self.mem = mem; self.pc = pc
    def fork(self, c=None): return State(dict(self.mem), self.pc + ((c,) if c is not None and c is not TRUE else ()))

class Frame:
    def __init__(self, fn, this, parent=None, chain=()):
        self.vars = {}; self.fn = fn; self.this = this; self.parent = parent; self.chain = chain
        self.tu = fn.tu if fn else (parent.tu if parent else None)
    def lookup(self, i):
        f = self
        while f is not None:
            if i in f.vars: return f.vars[i]
            f = f.parent
        return None

class Oblig:
    __slots__ = ('name', 'hyps', 'goal', 'loc', 'kind', 'status', 'info', 'backend', 'fn', 'time', 'aux')
    def __init__(self, name, hyps, goal, loc, kind, fn):
        self.name = name; self.hyps = hyps; self.goal = goal; self.loc = loc; self.kind = kind; self.fn = fn; self.status = None
        self.info = None; self.backend = None; self.time = 0; self.aux = ()

class Exit(Exception): pass      # abrupt: current path ended (outcome already recorded)

SKIP = {'ImplicitCastExpr', 'ParenExpr'}
TRANSPARENT = {'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr',
               'SubstNonTypeTemplateParmExpr', 'CXXFunctionalCastExpr_'}

class Exec:
    def __init__(self, prog, contracts=None, name=''):
        self.prog = prog; self.contracts = contracts or {}
        self.S = State({}, ()); self.facts = []; self.obs = []; self.mode = 'check'
        self.frame = None; self.outs = None
        self.ctx = (); self.fname = name; self.assumed = set(); self.trusted = set()
        self.cands = []           # contract supplied loop invariants: f(ex) -> list of (name, term)
        self.inlined = set(); self.loops_done = 0; self.deadline = None
        self.ghost = {}           # ghost roots
        self.tcache = {}
        self.locals_by_name = {}
        self.writes = None
        self.nofold = False
        self.overflow = False
        self.safety = True
        self.loopno = {}
        self.hook_call = None
        self.prove_timeout = 3000
        self.dry_cache = {}
        self.loopids = {}; self.lids = {}; self.nncache = {}; self.ptrs = {}; self.shared_objects = {}; self.summaries = 0; self.aux = set()

    # ------------------------------------------------------------ basics
    def pcf(self): return and_(*self.S.pc) if self.S else FALSE
    def assume(self, t):
        t = implies(self.pcf(), t)
        if t is not TRUE: self.facts.append(t)
        return t
    def hyps(self): return self.facts + list(self.S.pc)
    def oblig(self, kind, name, t, node=None):
        if t is TRUE: 
            if self.mode == 'check' and kind != 'safety': self.obs.append(Oblig(name, [], TRUE, self.loc(node), kind, self.curfn()))
            return
        if self.mode == 'check' and (kind != 'safety' or self.safety):
            self.obs.append(Oblig(name, self.hyps(), t, self.loc(node), kind, self.curfn())); self.obs[-1].aux = self.aux
        n = len(self.facts); f = self.assume(t)
        # facts that follow from others: a first attempt of a proof does without
        if kind in ('safety', 'inv', 'loop') and f not in self.facts[:n]: self.aux.add(f)
    def curfn(self): return self.prog.qual.get(self.frame.fn.mangled, '?') if self.frame and self.frame.fn else self.fname
    def loc(self, n):
        if not n: return ''
        try:
            b = n.get('range', {}).get('begin', {})
            b = b.get('expansionLoc', b)
            return '%s:%s' % (b.get('file', ''), b.get('line', ''))
        except Exception: return ''
    def type(self, n):
        q = n['type']; s = q.get('desugaredQualType', q['qualType'])
        t = self.tcache.get(s)
        if t is None:
            t = parse_type(self.prog, s)
            if t[0] == 'opaque' and 'desugaredQualType' in q:
                t2 = parse_type(self.prog, q['qualType'])
                if t2[0] != 'opaque': t = t2
            self.tcache[s] = t
        return t
    def key(self, n):
        return '%s.%s' % (self.frame.chain_key if hasattr(self.frame, 'chain_key') else '', n['id'][-6:])
    def freshleaf(self, name, sort):
        if self.ctx: return app('f:' + name, self.ctx, sort)
        return var(name, sort)
    def freshtree(self, name, ty):
        t = build(self.prog, ty, lambda p, s: self.freshleaf('.'.join((name,) + p), s))
        return t
    def wellformed(self, t):
        """lengths are not negative (all levels)"""
        out = []
        for p, l in leaves(t):
            if p and p[-1] == 'len':
                d = 0; s = l.sort
                while isinstance(s, tuple): d += 1; s = s[1]
                if d == 0: out.append(le(I(0), l))
                else:
                    def q(*vs):
                        x = l
                        for v in vs: x = sel(x, v)
                        return le(I(0), x)
                    out.append(forall(['Int'] * d, q))
        return out
    def newroot(self, name, tree):
        self.S.mem[name] = tree
        return LV(name)
    def zero(self, ty, d=0):
        def leaf(p, s):
            k = 0
            b = s
            while isinstance(b, tuple): k += 1; b = b[1]
            z = {'Int': I(0), 'Real': R(0), 'Bool': FALSE}.get(b)
            if z is None: z = lit('null' if b in ('Ref', 'Ptr', 'Obj') else 'empty', b)
            for _ in range(k):
                zz = z; z = mk('lam', (zz,), ('A', zz.sort))
            return z
        return build(self.prog, ty, leaf, (), d)

    # ------------------------------------------------------------ memory
    def read(self, lv):
        if lv.root not in self.S.mem: raise Unsupported('unknown location %r' % lv)
        t = self.S.mem[lv.root]
        for k in lv.path:
            if k[0] == 'f':
                if not isinstance(t, St) or k[1] not in t.f: raise Unsupported('field %s of %r' % (k[1], type(t)))
                t = t.f[k[1]]
            elif k[0] == 'i':
                if not isinstance(t, Ve): raise Unsupported('index of %r' % (t,))
                t = tsel(t.el, k[1])
            elif k[0] == 'd':
                if isinstance(t, Un): t = t.t
                elif isinstance(t, Opt): t = t.t
                else: raise Unsupported('dereference of %r' % (t,))
        return t
    def write(self, lv, v):
        if self.writes is not None:
            self.writes.add((lv.root, tuple(p[1] if p[0] == 'f' else ('el' if p[0] == 'i' else '*') for p in lv.path)))
        if lv.root not in self.S.mem: raise Unsupported('unknown location %r' % lv)
        inarray = any(k[0] == 'i' for k in lv.path)
        def go(t, path):
            if not path: return v if not inarray and isinstance(v, Un) and isinstance(v.t, St) else self.coerce(v, t)
            k = path[0]
            if k[0] == 'f':
                f = dict(t.f); f[k[1]] = go(t.f[k[1]], path[1:]); return St(t.cls, f)
            if k[0] == 'i':
                return Ve(t.len, tsto(t.el, k[1], go(tsel(t.el, k[1]), path[1:])))
            if k[0] == 'd':
                if isinstance(t, Un): return Un(go(t.t, path[1:]))
                if isinstance(t, Opt): return Opt(t.has, go(t.t, path[1:]))
            raise Unsupported('write %r' % (t,))
        self.S.mem[lv.root] = go(self.S.mem[lv.root], lv.path)
    def coerce(self, v, old):
        if isinstance(old, T) and old.sort == 'Ptr' and isinstance(v, Ptr): return self.ptrleaf(v)
        if isinstance(old, T) and old.sort == 'Obj' and isinstance(v, Un): return self.pack(v)
        if isinstance(old, T) and old.sort == 'Ref' and isinstance(v, Ptr):
            if v.lv is None: return lit('null', 'Ref')
            r = lit('ref:%r' % v.lv, 'Ref')
            self.shared_objects[r] = self.read(v.lv)
            return r
        if isinstance(old, St) and isinstance(v, St) and set(old.f) != set(v.f):
            f = dict(old.f)
            for n in old.f:
                if n in v.f: f[n] = v.f[n]
            return St(old.cls, f)
        return v
    def ptrleaf(self, v):
        if v.lv is None: return lit('null', 'Ptr')
        if isinstance(v.lv, T): return v.lv
        r = lit('&%r' % v.lv, 'Ptr')
        self.ptrs[r] = v.lv
        return r
    def pack(self, v): return pack(v)
    def val(self, x):
        """rvalue of a tree-or-LV"""
        return self.read(x) if isinstance(x, LV) else x
    def tmp(self, n, v):
        r = 'tmp' + self.key(n)
        self.S.mem[r] = v
        return LV(r)
    def aslv(self, x, n):
        return x if isinstance(x, LV) else self.tmp(n, x)

    # ------------------------------------------------------------ merging
    def merge(self, states):
        """states: list of (State, extra tree or None); returns (State, tree)"""
        states = [s for s in states if s[0] is not None]
        if not states: return None, None
        s, x = states[0]
        for s2, x2 in states[1:]:
            n = 0
            while n < len(s.pc) and n < len(s2.pc) and s.pc[n] is s2.pc[n]: n += 1
            r1 = and_(*s.pc[n:]); r2 = and_(*s2.pc[n:])
            o = or_(r1, r2)
            mem = {}
            for k in s.mem:
                if k in s2.mem:
                    a, b = s.mem[k], s2.mem[k]
                    if a is b: mem[k] = a
                    else:
                        try: mem[k] = tite(r1, a, b)
                        except (Unsupported, KeyError, AttributeError): pass
            if x is not None and x2 is not None: x = self.mergeval(r1, x, x2)
            s = State(mem, s.pc[:n] + ((o,) if o is not TRUE else ()))
        return s, x
    def mergeval(self, c, a, b):
        if isinstance(a, LV) or isinstance(b, LV):
            if isinstance(a, LV) and isinstance(b, LV):
                if a.same(b): return a
                if a.root == b.root and len(a.path) == len(b.path):
                    p = []
                    for x, y in zip(a.path, b.path):
                        if x == y: p.append(x)
                        elif x[0] == 'i' and y[0] == 'i': p.append(('i', ite(c, x[1], y[1])))
                        else: raise Unsupported('references merge')
                    return LV(a.root, p)
            raise Unsupported('references merge')
        return tite(c, a, b)

    def branch(self, c, f1, f2):
        """run f1 under c and f2 under not c; merge; returns merged values"""
        c = self.simp(c)
        if c is TRUE and not self.nofold: return f1()
        if c is FALSE and not self.nofold: return f2()
        base = self.S
        res = []
        for cc, f in ((c, f1), (not_(c), f2)):
            self.S = base.fork(cc)
            try: v = f()
            except Exit: continue
            res.append((self.S, v))
        if not res: raise Exit()
        self.S, v = self.merge(res)
        return v
    def simp(self, c):
        """path condition based simplification of a condition (syntactic)"""
        if c in (TRUE, FALSE): return c
        ps = set()
        for p in self.S.pc:
            if p.op == 'and': ps.update(p.args)
            else: ps.add(p)
        if c in ps: return TRUE
        if not_(c) in ps: return FALSE
        return c

    # ------------------------------------------------------------ statements
    def stmt(self, n):
        if self.deadline and time.time() > self.deadline: raise Unsupported('time limit')
        k = n.get('kind')
        if k is None: return
        m = getattr(self, 's_' + k, None)
        if m: return m(n)
        if k.endswith('Expr') or k in ('BinaryOperator', 'UnaryOperator', 'CompoundAssignOperator', 'ConditionalOperator', 'ExprWithCleanups', 'CXXOperatorCallExpr'):
            self.ev(n); return
        raise Unsupported('statement ' + k)
    def s_CompoundStmt(self, n):
        for c in n.get('inner', []): self.stmt(c)
    def s_NullStmt(self, n): pass
    def s_AttributedStmt(self, n):
        for c in n.get('inner', []):
            if not c.get('kind', '').endswith('Attr'): self.stmt(c)
    def s_DeclStmt(self, n):
        for d in n.get('inner', []):
            if d['kind'] == 'VarDecl': self.vardecl(d)
            elif d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl', 'CXXRecordDecl', 'UsingDirectiveDecl', 'EmptyDecl'): pass
            else: raise Unsupported('declaration ' + d['kind'])
    def vardecl(self, d):
        ty = self.type(d)
        init = [c for c in d.get('inner', []) if not c.get('kind', '').endswith('Attr')]
        init = init[0] if init else None
        if ty[0] == 'ref':
            x = self.ev(init)
            self.bindvar(d, x if isinstance(x, (LV, Lambda)) else self.tmp(d, x)); return
        if init is None: v = self.default(ty, d)
        else: v = self.val(self.ev(init))
        if isinstance(v, (Lambda, Fun, Ptr)): self.bindvar(d, v)
        if ty[0] == 'ptr' and isinstance(v, T): v = Ptr(v)
        if isinstance(v, Ptr):
            r = self.rootname(d); self.S.mem[r] = v; self.bindvar(d, LV(r)); return
        if isinstance(v, (Lambda, Fun)): return
        r = self.rootname(d)
        self.S.mem[r] = v
        if self.writes is not None: self.writes.add((r, ()))
        self.bindvar(d, LV(r))
    def rootname(self, d): return 'v:%s:%s' % (d.get('name', ''), self.key(d))
    def bindvar(self, d, x):
        self.frame.vars[d['id']] = x
        if d.get('name'): self.locals_by_name[d['name']] = x
    def default(self, ty, d=None):
        k = ty[0]
        if k in ('int', 'uint', 'real', 'bool'): return self.freshtree('undef' + (self.key(d) if d else ''), ty)
        if k == 'cls': return self.construct(ty[1], None, [], d)
        if k == 'ptr': return Ptr(None)
        if k == 'vec': return self.zero(ty)
        return self.zero(ty)
    def s_ReturnStmt(self, n):
        c = n.get('inner', [])
        v = None
        if c:
            v = self.ev(c[0])
            if self.frame.retref:
                if not isinstance(v, LV): v = self.aslv(v, n)
            else: v = self.val(v)
        self.outs['ret'].append((self.S, v))
        raise Exit()
    def s_BreakStmt(self, n): self.outs['brk'].append(self.S); raise Exit()
    def s_ContinueStmt(self, n): self.outs['cont'].append(self.S); raise Exit()
    def s_IfStmt(self, n):
        inner = list(n['inner'])
        if n.get('hasInit'): self.stmt(inner.pop(0))
        if n.get('hasVar'): self.stmt(inner.pop(0))
        c = self.cond(inner[0])
        th = inner[1]; el = inner[2] if len(inner) > 2 else None
        def f1():
            self.stmt(th)
        def f2():
            if el: self.stmt(el)
        self.branch(c, f1, f2)
    def s_OMPSimdDirective(self, n):
        cs = n['inner']
        c = next(x for x in cs if x.get('kind') == 'CapturedStmt')
        d = next(x for x in c['inner'] if x.get('kind') == 'CapturedDecl')
        self.stmt(d['inner'][0])
    s_OMPParallelForDirective = s_OMPSimdDirective
    def s_ForStmt(self, n):
        init, _, cond, inc, body = n['inner']
        if init.get('kind'): self.stmt(init)
        self.loop(n, lambda: self.cond(cond) if cond.get('kind') else TRUE, lambda: self.stmt(body),
                  lambda: self.ev(inc) if inc.get('kind') else None)
    def s_WhileStmt(self, n):
        inner = n['inner']
        cond, body = inner[-2], inner[-1]
        self.loop(n, lambda: self.cond(cond), lambda: self.stmt(body), lambda: None)
    def s_DoStmt(self, n):
        body, cond = n['inner']
        # body; while(cond) body  (break/continue of the first copy handled by a one shot loop is not supported)
        self.stmt(body)
        self.loop(n, lambda: self.cond(cond), lambda: self.stmt(body), lambda: None)
    def s_CXXForRangeStmt(self, n):
        inner = n['inner']
        for s in inner[:4]:
            if s.get('kind'): self.stmt(s)
        cond, inc, var_, body = inner[-4:]
        def bd():
            self.stmt(var_); self.stmt(body)
        self.loop(n, lambda: self.cond(cond), bd, lambda: self.ev(inc))
    def s_SwitchStmt(self, n):
        inner = n['inner']
        v = self.val(self.ev(inner[0])); body = inner[-1]
        groups = []    # (labels, default?, [stmts])
        for s in body.get('inner', []):
            labels = []; dflt = False
            while s.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if s['kind'] == 'CaseStmt':
                    labels.append(self.val(self.ev(s['inner'][0]))); s = s['inner'][-1]
                else: dflt = True; s = s['inner'][-1]
            if labels or dflt or not groups: groups.append((labels, dflt, [s]))
            else: groups[-1][2].append(s)
        every = [l for g in groups for l in g[0]]
        base = self.S; old = self.outs; brks = []
        self.outs = dict(old, brk=brks)
        res = []
        try:
            entered = FALSE
            for gi, (labels, dflt, _) in enumerate(groups):
                c = or_(*[eq(v, l) for l in labels]) if labels else FALSE
                if dflt: c = or_(c, and_(*[ne(v, l) for l in every]))
                self.S = base.fork(); c = self.simp(c)
                if c is FALSE: continue
                self.S = base.fork(c)
                try:
                    for g in groups[gi:]:
                        for s in g[2]: self.stmt(s)
                    res.append((self.S, None))
                except Exit: pass
                res += [(b, None) for b in brks]; brks.clear()
            if not any(g[1] for g in groups):
                res.append((base.fork(and_(*[ne(v, l) for l in every])), None))
        finally: self.outs = old
        if not res: raise Exit()
        self.S, _ = self.merge(res)
    def s_CXXTryStmt(self, n):
        body = n['inner'][0]; handlers = n['inner'][1:]
        old = self.outs; thr = []
        self.outs = dict(old, thr=thr)
        res = []
        try:
            try:
                self.stmt(body); res.append((self.S, None))
            except Exit: pass
        finally: self.outs = old
        for st, what in thr:
            done = False
            for h in handlers:
                hs = h['inner']
                decl = hs[0] if hs and hs[0].get('kind') == 'VarDecl' else None
                ty = norm_type(decl['type']['qualType']) if decl else '...'
                ty = ty.replace('const ', '').replace('&', '').strip()
                if decl is None or ty in (what, 'exception', 'runtime_error') or ty.split('::')[-1] == what:
                    self.S = st.fork()
                    try:
                        self.stmt(hs[-1]); res.append((self.S, None))
                    except Exit: pass
                    done = True; break
            if not done: old['thr'].append((st, what))
        if not res: raise Exit()
        self.S, _ = self.merge(res)

    # ------------------------------------------------------------ expressions
    def cond(self, n):
        v = self.val(self.ev(n))
        return self.tobool(v)
    def tobool(self, v):
        if isinstance(v, Ptr): return B(v.lv is not None) if not isinstance(v.lv, T) else ne(v.lv, lit('null', 'Ptr'))
        if isinstance(v, T):
            if v.sort == 'Bool': return v
            if v.sort in ('Int', 'Real'): return ne(v, num(0, v.sort))
        raise Unsupported('condition %r' % (v,))
    def ev(self, n):
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Unsupported('expression ' + k)
        return m(n)
    def rv(self, n): return self.val(self.ev(n))
    def _first(self, n): return self.ev(n['inner'][0])
    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ConstantExpr = _first
    def e_SubstNonTypeTemplateParmExpr(self, n): return self.ev(n['inner'][-1])
    e_CXXStdInitializerListExpr = e_CXXRewrittenBinaryOperator = _first
    def e_MaterializeTemporaryExpr(self, n):
        x = self.ev(n['inner'][0])
        if isinstance(x, (LV, Lambda, Fun)): return x
        return self.tmp(n, x)
    def e_IntegerLiteral(self, n): return I(int(n['value']))
    def e_FloatingLiteral(self, n):
        s = n['value']
        return R(Fraction(s))
    def e_CXXBoolLiteralExpr(self, n): return B(n['value'] in (True, 'true'))
    def e_StringLiteral(self, n): return lit('str' + n['value'], 'Str')
    def e_CharacterLiteral(self, n): return I(int(n['value']))
    def e_CXXNullPtrLiteralExpr(self, n): return Ptr(None)
    def e_PredefinedExpr(self, n): return lit('str', 'Str')
    def e_SourceLocExpr(self, n): return I(0)
    def e_CXXDefaultArgExpr(self, n):
        if n.get('inner'): return self.ev(n['inner'][0])
        return None
    def e_CXXScalarValueInitExpr(self, n): return self.zero(self.type(n))
    def e_ImplicitValueInitExpr(self, n): return self.zero(self.type(n))
    def e_CXXDefaultInitExpr(self, n): return self.ev(n['inner'][0]) if n.get('inner') else self.zero(self.type(n))
    def e_CXXThisExpr(self, n):
        f = self.frame
        while f is not None and f.this is None: f = f.parent
        return Ptr(f.this)
    def e_DeclRefExpr(self, n):
        r = n['referencedDecl']
        if r['kind'] == 'EnumConstantDecl':
            for tu in [self.frame.tu] if self.frame else []:
                d = tu.ids.get(r['id'])
                if d is not None and '_value' in d: return I(d['_value'])
            nm = norm_type(r.get('type', {}).get('qualType', ''))
            if (nm, r['name']) in self.prog.enums: return I(self.prog.enums[(nm, r['name'])])
            raise Unsupported('enumerator ' + r['name'])
        x = self.frame.lookup(r['id'])
        if x is not None: return x
        if r['kind'] in ('FunctionDecl', 'CXXMethodDecl'): return ('fn', r)
        if r['kind'] in ('VarDecl', 'ParmVarDecl'):
            nm = r.get('name')
            if nm in ('_1',): return ('ph', 1)
            if nm in ('_2',): return ('ph', 2)
            d = self.frame.tu.ids.get(r['id'])
            if d is not None and d.get('mangledName'):
                ini = [c for c in d.get('inner', []) if c.get('kind') and not c['kind'].endswith('Attr')]
                ty = self.type(d)
                if 'const' in d['type']['qualType'] and ini and ty[0] in ('int', 'uint', 'real', 'bool'):
                    return self.rv(ini[0])
                root = 'g:' + d['mangledName']
                if root not in self.S.mem: self.S.mem[root] = self.freshtree(root, ty)
                return LV(root)
            if r['kind'] == 'VarDecl': return ('obj', nm, r)
        if r['kind'] == 'BindingDecl': raise Unsupported('structured binding')
        raise Unsupported('reference to %s %s' % (r['kind'], r.get('name')))
    def e_MemberExpr(self, n):
        base = self.ev(n['inner'][0])
        if n.get('isArrow'):
            base = self.val(base)
            if isinstance(base, T) and base in self.ptrs: base = Ptr(self.ptrs[base])
            if isinstance(base, Ptr):
                base = self.deref(base, n)
            elif isinstance(base, It): base = self.deref_it(base, n)
            else: raise Unsupported('-> on %r' % (base,))
        name = n.get('name')
        if isinstance(base, LV):
            d = self.frame.tu.ids.get(n.get('referencedMemberDecl'))
            return base.f(name)
        if isinstance(base, St): return base.f[name]
        raise Unsupported('member %s of %r' % (name, base))
    def deref(self, p, n):
        if isinstance(p.lv, T): return ('ref', p.lv)
        if p.lv is None:
            self.oblig('safety', 'null dereference', FALSE, n); raise Unsupported('null dereference')
        return p.lv
    def deref_it(self, it, n):
        ln = self.read(it.lv).len
        self.oblig('safety', 'iterator in range', and_(le(I(0), it.idx), lt(it.idx, ln)), n)
        return it.lv.i(it.idx)
    def castto(self, v, ty, n, src=None):
        k = ty[0]
        if k == 'real':
            if isinstance(v, T) and v.sort == 'Int': return toreal(v)
            if isinstance(v, T) and v.sort == 'Bool': return ite(v, R(1), R(0))
            return v
        if k in ('int', 'uint'):
            if isinstance(v, T) and v.sort == 'Real': return trunc_(v)
            if isinstance(v, T) and v.sort == 'Bool': return ite(v, I(1), I(0))
            if k == 'uint' and src and src[0] == 'int' and isinstance(v, T):
                self.oblig('safety', 'conversion of a negative number to unsigned', le(I(0), v), n)
            return v
        if k == 'bool': return self.tobool(v)
        return v
    def cast(self, n):
        ck = n.get('castKind'); c = n['inner'][0]
        if ck == 'LValueToRValue': return self.val(self.ev(c))
        if ck == 'ArrayToPointerDecay':
            a = self.ev(c)
            return It(a, I(0)) if isinstance(a, LV) and isinstance(self.read(a), Ve) else a
        if ck in ('NoOp', 'FunctionToPointerDecay', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BuiltinFnToFnPtr'):
            return self.ev(c)
        if ck in ('IntegralCast', 'FloatingCast', 'IntegralToFloating', 'FloatingToIntegral', 'IntegralToBoolean', 'FloatingToBoolean', 'BooleanToSignedIntegral'):
            v = self.rv(c)
            st = self.type(c)
            return self.castto(v, self.type(n), n, st)
        if ck == 'PointerToBoolean': return self.tobool(self.rv(c))
        if ck == 'NullToPointer': return Ptr(None)
        if ck == 'ToVoid':
            self.ev(c); return None
        if ck in ('ConstructorConversion', 'UserDefinedConversion'):
            return self.ev(c)
        if ck == 'BitCast': return self.ev(c)
        if ck == 'Dynamic': return self.dyncast(n)
        raise Unsupported('cast %s' % ck)
    e_ImplicitCastExpr = e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = cast
    def dynclass(self, x):
        t = self.read(x) if isinstance(x, LV) else x
        if isinstance(t, St): return t.cls
        return None
    def dyncast(self, n):
        x = self.ev(n['inner'][0]); ty = self.type(n)
        if isinstance(x, LV) and ty[0] != 'ptr':
            cls = self.dynclass(x); want = ty[1] if ty[0] == 'cls' else ty[1][1] if ty[0] == 'ref' else None
            if cls is None: raise Unsupported('dynamic_cast of an object of unknown class')
            if self.prog.is_base(want, cls): return x
            self.throw('bad_cast'); 
        x = self.val(x)
        if isinstance(x, Ptr) and isinstance(x.lv, LV):
            cls = self.dynclass(x.lv); want = ty[1][1]
            return x if self.prog.is_base(want, cls) else Ptr(None)
        raise Unsupported('dynamic_cast')
    e_CXXDynamicCastExpr = dyncast
    def e_CXXNewExpr(self, n):
        ty = self.type(n)[1]
        c = next((x for x in n.get('inner', []) if x.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr')), None)
        if n.get('isArray') or c is None: raise Unsupported('new of %s' % (ty,))
        v = self.rv(c)
        root = 'heap:%s:%s' % (ty[1], self.key(n))
        if self.ctx: raise Unsupported('new in a loop')
        self.S.mem[root] = v
        return Ptr(LV(root))
    def throw(self, what):
        self.outs['thr'].append((self.S, what)); raise Exit()
    def e_CXXThrowExpr(self, n):
        what = 'exception'
        if n.get('inner'):
            c = n['inner'][0]
            what = norm_type(c['type']['qualType']).replace('const ', '')
        self.throw(what)
    def e_CXXTypeidExpr(self, n):
        if n.get('inner'):
            x = self.ev(n['inner'][0])
            ty = self.type(n['inner'][0])
            cls = ty[1] if ty[0] == 'cls' else str(ty)
            if isinstance(x, LV) and ty[0] == 'cls' and self.polymorphic(ty[1]):
                d = self.dynclass(x)
                if d is None:
                    return app('typeid', [self.read(x)], 'Type')
                cls = d
            elif isinstance(x, tuple) and x[0] == 'ref': return app('typeid', [x[1]], 'Type')
            return lit('typeid:' + str(cls), 'Type')
        return lit('typeid:' + n.get('typeArg', {}).get('qualType', '?'), 'Type')
    def polymorphic(self, cls):
        c = self.prog.classes.get(cls)
        if c is None: return False
        if any(m.get('virtual') for m in c.methods): return True
        return any(self.polymorphic(b) for b in c.bases)
    def e_UnaryOperator(self, n):
        op = n['opcode']; c = n['inner'][0]
        if op in ('++', '--'):
            x = self.ev(c)
            if not isinstance(x, LV): raise Unsupported('++ of a value')
            v = self.read(x); ty = self.type(n)
            d = 1 if op == '++' else -1
            if isinstance(v, It): nv = It(v.lv, add(v.idx, I(d)))
            else:
                if d < 0 and ty[0] == 'uint': self.oblig('safety', 'unsigned decrement', lt(I(0), v), n)
                nv = add(v, num(d, v.sort))
            self.write(x, nv)
            return v if n.get('isPostfix') else x
        if op == '-':
            return neg(self.rv(c))
        if op == '+': return self.rv(c)
        if op == '!': return not_(self.tobool(self.rv(c)))
        if op == '*':
            p = self.rv(c)
            if isinstance(p, It): return self.deref_it(p, n)
            if isinstance(p, Ptr): return self.deref(p, n)
            raise Unsupported('* of %r' % (p,))
        if op == '&':
            x = self.ev(c)
            if isinstance(x, LV): return Ptr(x)
            if isinstance(x, tuple) and x[0] == 'fn': return x
        if op == '__extension__': return self.ev(c)
        raise Unsupported('unary ' + op)
    def arith(self, op, a, b, ty, n):
        if isinstance(a, It) or isinstance(b, It):
            if op == '+': return It(a.lv, add(a.idx, b)) if isinstance(a, It) else It(b.lv, add(b.idx, a))
            if op == '-' and isinstance(b, It): return sub(a.idx, b.idx)
            if op == '-': return It(a.lv, sub(a.idx, b))
        if not (isinstance(a, T) and isinstance(b, T)): raise Unsupported('%s on %r, %r' % (op, a, b))
        if a.sort == 'Bool': a = ite(a, I(1), I(0))
        if b.sort == 'Bool': b = ite(b, I(1), I(0))
        if a.sort != b.sort: a, b = toreal(a), toreal(b)
        if a.sort == 'Real':
            if op == '/':
                if self.divcheck: self.oblig('safety', 'division by zero', ne(b, R(0)), n)
                return rdiv(a, b)
            r = {'+': add, '-': sub, '*': mul}.get(op)
            if r: return r(a, b)
            raise Unsupported(op)
        if op == '+': r = add(a, b)
        elif op == '-':
            r = sub(a, b)
            if ty[0] == 'uint': self.oblig('safety', 'unsigned subtraction', le(b, a), n)
        elif op == '*': r = mul(a, b)
        elif op in ('/', '%'):
            self.oblig('safety', 'division by zero', ne(b, I(0)), n)
            return tdiv(a, b) if op == '/' else tmod(a, b)
        elif op in ('<<',) and isnum(b): r = scale(a, 2 ** int(b.args[0]))
        else: raise Unsupported('operator ' + op)
        if self.overflow and ty[0] == 'int':
            lo, hi = self.intrange(n) or (-2**63, 2**63 - 1)
            self.oblig('safety', 'int overflow', and_(le(I(lo), r), le(r, I(hi))), n)
        return r
    def intrange(self, n):
        t = n.get('type', {}); t = (t.get('desugaredQualType') or t.get('qualType') or '').replace('const ', '')
        return {'int': (-2**31, 2**31 - 1), 'long': (-2**63, 2**63 - 1), 'long long': (-2**63, 2**63 - 1)}.get(t)
    divcheck = False
    def compare(self, op, a, b, n):
        if isinstance(a, It) or isinstance(b, It): a, b = a.idx, b.idx
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            a = self.ptrleaf(a) if isinstance(a, Ptr) else a
            b = self.ptrleaf(b) if isinstance(b, Ptr) else b
            if a.sort != b.sort: b = lit('null', a.sort) if b.op == 'lit' else b; a = lit('null', b.sort) if a.sort != b.sort else a
        if not (isinstance(a, T) and isinstance(b, T)): raise Unsupported('%s on %r, %r' % (op, a, b))
        if a.sort != b.sort:
            if a.sort == 'Bool': a = ite(a, I(1), I(0))
            if b.sort == 'Bool': b = ite(b, I(1), I(0))
            if a.sort != b.sort: a, b = toreal(a), toreal(b)
        if op == '==': return eq(a, b)
        if op == '!=': return ne(a, b)
        if a.sort not in ('Int', 'Real'): raise Unsupported('order on ' + str(a.sort))
        return {'<': lt, '<=': le, '>': gt, '>=': ge}[op](a, b)
    def e_BinaryOperator(self, n):
        op = n['opcode']; l, r = n['inner']
        if op in ('&&', '||'):
            a = self.tobool(self.rv(l))
            a = self.simp(a)
            if not self.nofold:
                if op == '&&' and a is FALSE: return FALSE
                if op == '||' and a is TRUE: return TRUE
            base = self.S
            self.S = base.fork(a if op == '&&' else not_(a))
            try:
                b = self.tobool(self.rv(r))
            except Exit:
                self.S = base.fork(not_(a) if op == '&&' else a)
                return FALSE if op == '&&' else TRUE
            s1 = self.S
            self.S, _ = self.merge([(s1, None), (base.fork(not_(a) if op == '&&' else a), None)])
            return and_(a, b) if op == '&&' else or_(a, b)
        if op == '=':
            b = self.rv(r); a = self.ev(l)
            if not isinstance(a, LV): raise Unsupported('assignment')
            if isinstance(b, Ptr) and isinstance(b.lv, LV):
                if a.path: self.write(a, self.ptrleaf(b) if self.read(a).sort == 'Ptr' else b)
                else: self.S.mem[a.root] = b
                return a
            self.write(a, b); return a
        if op == ',':
            self.ev(l); return self.ev(r)
        a = self.rv(l); b = self.rv(r)
        if op in ('==', '!=', '<', '<=', '>', '>='): return self.compare(op, a, b, n)
        if op in ('&', '|') and a.sort == 'Bool': return and_(a, b) if op == '&' else or_(a, b)
        return self.arith(op, a, b, self.type(n), n)
    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]; l, r = n['inner']
        b = self.rv(r); x = self.ev(l)
        if not isinstance(x, LV): raise Unsupported('compound assignment')
        a = self.read(x); ty = self.type(n)
        if op in ('&', '|') and isinstance(a, T) and a.sort == 'Bool':
            b = self.tobool(b)
            self.write(x, and_(a, b) if op == '&' else or_(a, b)); return x
        cty = ty
        if 'computeResultType' in n:
            q = n['computeResultType']; cty = parse_type(self.prog, q.get('desugaredQualType', q['qualType']))
        v = self.arith(op, a, b, cty, n)
        self.write(x, self.castto(v, ty, n)); return x
    def e_ConditionalOperator(self, n):
        c, a, b = n['inner']
        if self.is_assert(n):
            self.oblig('safety', 'assert', self.cond(c), n); return None
        cc = self.cond(c)
        return self.branch(cc, lambda: self.ev(a), lambda: self.ev(b))
    def is_assert(self, n):
        def has(x):
            if x.get('kind') == 'DeclRefExpr' and x.get('referencedDecl', {}).get('name') == '__assert_fail': return True
            return any(has(y) for y in x.get('inner', []))
        return has(n['inner'][2])
    def e_InitListExpr(self, n):
        ty = self.type(n); xs = n.get('inner', [])
        if ty[0] == 'cls':
            fs = self.prog.fields(ty[1]); f = {}
            for (nm, ft, d), x in zip(fs, xs):
                old = None
                f[nm] = self.val(self.ev(x))
            for nm, ft, d in fs[len(xs):]: f[nm] = self.fieldinit(ft, d)
            z = self.zero(ty)
            return St(ty[1], {nm: self.coerce(f[nm], z.f[nm]) for nm in f})
        if ty[0] == 'vec' or ty[0] == 'opaque':
            vals = [self.rv(x) for x in xs]
            return self.veclit(ty, vals, n)
        if len(xs) == 1: return self.rv(xs[0])
        if not xs: return self.zero(ty)
        raise Unsupported('initializer list of %s' % (ty,))
    def veclit(self, ty, vals, n):
        if ty[0] != 'vec':
            if not vals: raise Unsupported('init list')
            el = {'Int': ('int',), 'Real': ('real',), 'Bool': ('bool',)}.get(vals[0].sort if isinstance(vals[0], T) else None)
            if el is None: raise Unsupported('init list')
            ty = ('vec', el)
        z = self.zero(ty)
        el = z.el
        for i, v in enumerate(vals): el = tsto(el, I(i), self.coerce(v, tsel(el, I(i))))
        return Ve(I(len(vals)), el)
    def fieldinit(self, ft, d):
        ini = [c for c in d.get('inner', []) if c.get('kind') and not c['kind'].endswith('Attr') and not c['kind'].endswith('Comment')]
        ty = parse_type(self.prog, ft)
        if ini:
            v = self.rv(ini[0])
            if isinstance(v, Ptr): v = self.ptrleaf(v)
            if isinstance(v, T) and v.op == 'lit' and v.args[0] == 'null' and leafsort(ty) not in (None, v.sort): v = lit('null', leafsort(ty))
            return v
        if ty[0] in ('int', 'uint', 'real', 'bool'): return self.freshtree('uninit.' + str(d.get('name')) + '.' + str(len(self.S.mem)), ty)
        if ty[0] == 'cls': return self.construct(ty[1], None, [], d)
        return self.zero(ty)
    def e_LambdaExpr(self, n):
        cls = next(c for c in n['inner'] if c.get('kind') == 'CXXRecordDecl')
        m = [c for c in cls.get('inner', []) if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()']
        if not m:
            for c in cls.get('inner', []):
                if c.get('kind') == 'FunctionTemplateDecl' and c.get('name') == 'operator()':
                    m = [x for x in c.get('inner', []) if x.get('kind') == 'CXXMethodDecl'][1:] or [x for x in c.get('inner', []) if x.get('kind') == 'CXXMethodDecl']
        return Lambda(m[0], self.frame)

    # ------------------------------------------------------------ construction
    def e_CXXConstructExpr(self, n):
        ty = self.type(n); args = n.get('inner', [])
        if ty[0] == 'cls':
            ct = n.get('ctorType', {}).get('qualType')
            return self.construct(ty[1], ct, args, n)
        if ty[0] == 'vec':
            a = [x for x in args if x.get('kind') != 'CXXDefaultArgExpr']
            if not a: return self.zero(ty)
            v = [self.ev(x) for x in a]
            vv = [self.val(x) for x in v]
            if len(vv) == 1 and isinstance(vv[0], Ve): 
                if a[0].get('valueCategory') == 'xvalue' and isinstance(v[0], LV): pass
                return vv[0]
            if len(vv) >= 1 and isinstance(vv[0], T) and vv[0].sort == 'Int':
                self.oblig('safety', 'vector size not negative', le(I(0), vv[0]), n)
                return self.vecfill(ty, vv[0], vv[1] if len(vv) > 1 else None, n)
            if len(vv) == 2 and isinstance(vv[0], It): return self.subvec(vv[0], vv[1], n)
            raise Unsupported('vector constructor')
        if ty[0] == 'uniq':
            if not args: return lit('null', 'Obj')
            v = self.rv(args[0])
            if isinstance(v, Ptr): return lit('null', 'Obj') if v.lv is None else Un(self.read(v.lv))
            return v
        if ty[0] == 'shared':
            if not args: return lit('null', 'Ref')
            v = self.rv(args[0])
            if isinstance(v, Ptr): return lit('null', 'Ref')
            return v
        if ty[0] == 'iter':
            return self.rv(args[0])
        if ty[0] == 'opt':
            if not args: return Opt(FALSE, self.zero(ty[1]))
            v = self.rv(args[0])
            if isinstance(v, Opt): return v
            return Opt(TRUE, v)
        if ty[0] in ('str',):
            return self.rv(args[0]) if args and isinstance(self.rv(args[0]), T) else self.freshleaf('str' + self.key(n), 'Str')
        if ty[0] == 'dur':
            return self.rv(args[0]) if args else I(0)
        if len(args) == 1:
            v = self.ev(args[0])
            if isinstance(v, (Lambda, Fun)): return v
            v = self.val(v)
            if isinstance(v, T): return v
        if ty[0] == 'opaque':
            nm = ty[1]
            if nm.startswith(('multiplies', 'plus', 'divides', 'minus')): return Fun(nm.split('<')[0])
            return self.freshleaf('opq' + self.key(n), 'Opq')
        raise Unsupported('constructor of %s' % (ty,))
    def e_CXXTemporaryObjectExpr(self, n): return self.e_CXXConstructExpr(n)
    def vecfill(self, ty, ln, v, n):
        ety = ty[1]
        if v is None: v = self.default_elem(ety)
        z = self.zero(ty)
        v = self.coerce(v, tsel(z.el, I(0)))
        el = tmap(lambda a: mk('lam', (a,), ('A', a.sort)) if a.loose == 0 else None, v)
        return Ve(ln, el)
    def default_elem(self, ety):
        if ety[0] == 'cls': return self.construct(ety[1], None, [], None)
        return self.zero(ety)
    def subvec(self, b, e, n):
        src = self.read(b.lv)
        self.oblig('safety', 'iterator range', and_(le(I(0), b.idx), le(b.idx, e.idx), le(e.idx, src.len)), n)
        el = src.el if b.idx is I(0) else tmap(lambda a: lam(lambda i: sel(a, add(i, b.idx))), src.el)
        return Ve(sub(e.idx, b.idx), el)
    def construct(self, cls, ctype, args, n):
        """build an object of class cls with the constructor of type ctype"""
        ty = ('cls', cls)
        c = self.prog.classes.get(cls)
        if c is None: raise Unsupported('class ' + cls)
        vals = None
        if len(args) == 1 and ctype and self.is_copy(cls, ctype):
            ctor = self.ctor(cls, ctype)
            if ctor is None or ctor.body is None or ctor.node.get('explicitlyDefaulted') or ctor.node.get('isImplicit'):
                user = self.user_copy_base(cls)
                v = self.rv(args[0])
                if not isinstance(v, St): raise Unsupported('copy of %r' % (v,))
                if user is None or ctor is None or ctor.body is None:
                    if user is None: return self.slice(v, cls)
                    raise Unsupported('copy constructor of %s without body' % cls)
        elif not args and (ctype is None or ctype == 'void ()' or ctype.startswith('void () ')):
            ctor = self.ctor(cls, 'void ()')
            if ctor is None or ctor.body is None or ctor.node.get('explicitlyDefaulted'):
                return St(cls, {nm: self.coerce(self.fieldinit(ft, d), self.zero(parse_type(self.prog, ft))) for nm, ft, d in self.prog.fields(cls)})
        else: ctor = self.ctor(cls, ctype)
        if ctor is None: raise Unsupported('constructor %s of %s' % (ctype, cls))
        root = 'new:%s:%s' % (cls, self.key(n) if n else 'x')
        if 'new:' + cls in self.contracts:
            r = self.contracts['new:' + cls](self, [self.ev(a) for a in args], n)
            if r is not NotImplemented: return r
        self.S.mem[root] = self.rawobj(cls)
        lv = LV(root)
        av = [self.ev(a) for a in args]
        self.run_ctor(ctor, lv, av, n)
        return self.read(lv)
    def rawobj(self, cls):
        return build(self.prog, ('cls', cls), lambda p, s: self.zeroleaf(s))
    def zeroleaf(self, s):
        k = 0; b = s
        while isinstance(b, tuple): k += 1; b = b[1]
        z = {'Int': I(0), 'Real': R(0), 'Bool': FALSE}.get(b)
        if z is None: z = lit('null' if b in ('Ref', 'Ptr', 'Obj') else 'empty', b)
        for _ in range(k): z = mk('lam', (z,), ('A', z.sort))
        return z
    def slice(self, v, cls):
        names = [nm for nm, _, _ in self.prog.fields(cls)]
        return St(cls, {nm: v.f[nm] for nm in names})
    def is_copy(self, cls, ctype):
        a = sig_norm(ctype)
        i = a.index('('); p = a[i + 1:a.rindex(')')]
        p = p.replace('const ', '').replace('&', '').strip()
        return p == cls or p == cls.split('<')[0] or norm_type(p) == norm_type(cls)
    def user_copy_base(self, cls):
        """a base (or field class) with a user written copy constructor"""
        c = self.prog.classes.get(cls)
        for m in c.methods:
            if m['kind'] == 'CXXConstructorDecl' and self.is_copy_node(cls, m) and not m.get('explicitlyDefaulted') and not m.get('isImplicit') :
                return cls
        for b in c.bases:
            r = self.user_copy_base(b)
            if r: return r
        return None
    def is_copy_node(self, cls, m):
        ps = [x for x in m.get('inner', []) if x['kind'] == 'ParmVarDecl']
        return len(ps) == 1 and '&' in ps[0]['type']['qualType'] and self.is_copy(cls, m['type']['qualType'])
    def ctor(self, cls, ctype):
        c = self.prog.classes.get(cls)
        best = None
        for m in c.methods:
            if m['kind'] != 'CXXConstructorDecl': continue
            if ctype is None or sig_norm(m['type']['qualType']) == sig_norm(ctype) or m['type']['qualType'] == ctype:
                f = self.prog.bodies.get(m.get('mangledName'))
                if f: return f
                best = best or (self.prog.decls.get(m.get('mangledName')) if m.get('mangledName') else None)
        if best is None and ctype is not None:
            # compare by parameter count only when unambiguous
            want = len(split_targs(sig_norm(ctype)[sig_norm(ctype).index('(') + 1:sig_norm(ctype).rindex(')')]))
            ms = [m for m in c.methods if m['kind'] == 'CXXConstructorDecl' and len([x for x in m.get('inner', []) if x['kind'] == 'ParmVarDecl']) == want and not m.get('isImplicit')]
            ms = [m for m in ms if not self.is_copy_node(cls, m)]
            if len(ms) == 1: return self.prog.bodies.get(ms[0].get('mangledName'))
        return best
    def run_ctor(self, fn, lv, args, n):
        """run constructor fn on the object at lv (whose fields are raw)"""
        cls = self.ctor_class(fn)
        def pre():
            c = self.prog.classes[cls]
            inits = list(fn.inits)
            seen = set()
            for i in inits:
                e = i['inner'][0] if i.get('inner') else None
                if 'anyInit' in i:
                    seen.add(i['anyInit']['name'])
                elif 'baseInit' in i: seen.add(norm_type(i['baseInit'].get('desugaredQualType', i['baseInit']['qualType'])))
            # implicit default initialisation of bases and members
            for b in c.bases:
                if not any('baseInit' in i for i in inits) : self.init_base(lv, b, None, n)
            for i in inits:
                e = i['inner'][0] if i.get('inner') else None
                if 'baseInit' in i:
                    b = norm_type(i['baseInit'].get('desugaredQualType', i['baseInit']['qualType']))
                    self.init_base(lv, b, e, n)
            for nm, ft, d in c.fields:
                i = next((i for i in inits if i.get('anyInit', {}).get('name') == nm), None)
                if i is not None:
                    e = i['inner'][0]
                    if e.get('kind') == 'CXXDefaultInitExpr': v = self.fieldinit(ft, d)
                    else: v = self.rv(e)
                else: v = self.fieldinit(ft, d)
                if isinstance(v, Ptr): v = self.ptrleaf(v)
                self.write(lv.f(nm), v)
        self.call(fn, lv, args, n, pre=pre)
    def ctor_class(self, fn):
        if fn.cls is not None: return fn.cls.name
        q = self.prog.qual.get(fn.mangled, '')
        b = fn_base(q)
        c = b[:b.rindex('::')]
        if c in self.prog.classes: return c
        raise Unsupported('class of constructor ' + q)
    def init_base(self, lv, b, e, n):
        while e is not None and e['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr'): e = e['inner'][0]
        ct = e.get('ctorType', {}).get('qualType') if e is not None else 'void ()'
        args = [x for x in e.get('inner', [])] if e is not None else []
        if e is not None and e['kind'] != 'CXXConstructExpr': raise Unsupported('base initialiser')
        c = self.prog.classes.get(b)
        if c is None: return
        ctor = self.ctor(b, ct)
        if len(args) == 1 and self.is_copy(b, ct) and self.user_copy_base(b) is None:
            v = self.rv(args[0])
            for nm, _, _ in self.prog.fields(b): self.write(lv.f(nm), v.f[nm])
            return
        if ctor is None or (ctor.body is None):
            if not args:
                for nm, ft, d in self.prog.fields(b):
                    v = self.fieldinit(ft, d)
                    self.write(lv.f(nm), self.ptrleaf(v) if isinstance(v, Ptr) else v)
                return
            raise Unsupported('constructor of base ' + b)
        av = [self.ev(a) for a in args]
        self.run_ctor(ctor, lv, av, n)

    # ------------------------------------------------------------ calls
    def call(self, fn, this, args, n, pre=None):
        """inline fn; args: list of LV or values"""
        if fn.body is None: raise Unsupported('no body for %s' % fn.name)
        self.inlined.add(fn.mangled)
        old = self.frame; oldouts = self.outs
        fr = Frame(fn, this)
        depth = getattr(old, 'depth', 0) + 1
        if depth > 25: raise Unsupported('recursion')
        fr.depth = depth
        fr.chain_key = (getattr(old, 'chain_key', '') + '/' + (n['id'][-6:] if n and 'id' in n else fn.name))
        if len(fr.chain_key) > 40: fr.chain_key = hashlib.md5(fr.chain_key.encode()).hexdigest()[:10]
        rt = fn.type[:fn.type.index('(')].strip() if '(' in fn.type else 'void'
        fr.retref = rt.endswith('&') and not rt.endswith('&&')
        if fn.type.startswith('auto'):
            m = re.search(r'-> (.*)$', fn.type); fr.retref = bool(m and m.group(1).strip().endswith('&'))
        self.frame = fr
        self.bindparams(fn.params, args, n)
        self.outs = {'ret': [], 'brk': [], 'cont': [], 'thr': oldouts['thr'] if oldouts else []}
        try:
            base = self.S
            try:
                if pre: pre()
                self.stmt(fn.body)
                self.outs['ret'].append((self.S, None))
            except Exit: pass
            rets = self.outs['ret']
        finally:
            self.frame = old; self.outs = oldouts
        if not rets: raise Exit()
        return self.mergerets(rets)
    def mergerets(self, rets):
        # drop syntactically dead states
        live = [(s, v) for s, v in rets if FALSE not in s.pc]
        if not live: raise Exit()
        if len(live) == 1: self.S, v = live[0]; return v
        vals = [v for _, v in live]
        if any(v is None for v in vals) and any(v is not None for v in vals):
            live = [(s, v) for s, v in live if v is not None]
        try: self.S, v = self.merge(live)
        except Unsupported as e:
            if 'references merge' not in str(e): raise
            # keep the paths that are not contradictory
            live = [(s, v) for s, v in live if not self.dead(s)]
            if not live: raise Exit()
            self.S, v = self.merge(live)
        return v
    def dead(self, s):
        import solve
        return solve.prove(self.facts + list(s.pc), FALSE, timeout=500, rounds=1, nl=False)[0] == 'proved'
    def bindparams(self, params, args, n):
        args = list(args)
        for i, p in enumerate(params):
            ty = self.type(p)
            if i < len(args): a = args[i]
            else: a = None
            if a is None:
                ini = [c for c in p.get('inner', []) if c.get('kind') and not c['kind'].endswith('Attr')]
                if ini: a = self.ev(ini[0])
                else: raise Unsupported('missing argument')
            if ty[0] == 'ref':
                if isinstance(a, (LV, Lambda, Fun)) or isinstance(a, tuple): self.bindvar(p, a)
                else:
                    r = self.rootname(p); self.S.mem[r] = a; self.bindvar(p, LV(r))
            else:
                v = self.val(a)
                if isinstance(v, (Lambda, Fun)): self.bindvar(p, v); continue
                if ty[0] == 'ptr' and isinstance(v, It): v = Ptr(v.lv.i(v.idx))
                if ty[0] == 'ptr' and isinstance(v, Ve) and isinstance(a, LV): v = Ptr(a.i(I(0)))      # an array decays
                r = self.rootname(p); self.S.mem[r] = v; self.bindvar(p, LV(r))
    def callee(self, n):
        """declaration of the called function"""
        c = n['inner'][0]
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
        return c
    def resolve(self, declid, tu=None):
        tu = tu or self.frame.tu
        d = tu.ids.get(declid)
        if d is None: return None
        m = d.get('mangledName')
        if m is None: return None
        f = self.prog.bodies.get(m) or self.prog.decls.get(m)
        return f
    def dispatch(self, fn, recv):
        """virtual dispatch on the dynamic class of the receiver"""
        if not (fn.virtual or self.is_virtual(fn)): return fn
        cls = self.dynclass(recv)
        if cls is None: return None
        m = self.prog.overrider(cls, fn.name, fn.type)
        if m is None: return fn
        return self.prog.bodies.get(m) or self.prog.decls.get(m) or fn
    def is_virtual(self, fn):
        if fn.virtual: return True
        if not hasattr(self.prog, 'virtuals'):
            # definitions outside of the class do not repeat the word
            self.prog.virtuals = {m.get('mangledName') for c in self.prog.classes.values() for m in c.methods if m.get('virtual') or any(x.get('kind') in ('OverrideAttr', 'FinalAttr') for x in m.get('inner', []))}
        return fn.mangled in self.prog.virtuals or any(c.get('kind') in ('OverrideAttr', 'FinalAttr') for c in fn.node.get('inner', []))
    def qname(self, fn): return fn_base(self.prog.qual.get(fn.mangled, fn.name))
    def invoke(self, fn, this, args, n):
        q = self.qname(fn)
        for key in (q + '/' + str(len(fn.params)), q, '*::' + fn.name):
            if key in self.contracts:
                c = self.contracts[key]
                r = c(self, fn, this, args, n)
                if r is not NotImplemented: return r
        if fn.body is None:
            if fn.node.get('explicitlyDefaulted') or fn.node.get('isImplicit') or fn.name == 'operator=':
                if fn.name == 'operator=':
                    self.write(this, self.val(args[0])); return this
            raise Unsupported('no body for %s' % q)
        return self.call(fn, this, args, n)
    def e_CXXMemberCallExpr(self, n):
        m = n['inner'][0]
        while m.get('kind') == 'ParenExpr': m = m['inner'][0]
        if m.get('kind') != 'MemberExpr': raise Unsupported('member call through ' + str(m.get('kind')))
        basen = m['inner'][0]
        base = self.ev(basen)
        if m.get('isArrow'):
            base = self.val(base)
            if isinstance(base, T) and base in self.ptrs: base = Ptr(self.ptrs[base])
            if isinstance(base, Ptr): base = self.deref(base, n)
            elif isinstance(base, It): base = self.deref_it(base, n)
            elif isinstance(base, T): base = ('ref', base)
            else: raise Unsupported('-> on %r' % (base,))
        fn = self.resolve(m.get('referencedMemberDecl'))
        name = m.get('name'); args = n['inner'][1:]
        if fn is not None:
            av = [self.ev(a) for a in args]
            if not isinstance(base, LV):
                if isinstance(base, tuple) and base[0] == 'ref': return self.refcall(fn, base[1], av, n)
                base = self.tmp(n, base)
            qualified = self.is_qualified(m)
            t = self.read(base)
            if isinstance(t, T): return self.objcall(fn, base, av, n)
            f2 = fn if qualified else self.dispatch(fn, base)
            if f2 is None: return self.objcall(fn, base, av, n)
            return self.invoke(f2, base, av, n)
        return self.stdmethod(base, name, args, n, basen)
    def is_qualified(self, m):
        # "this->Base::f()": clang does not dump the qualifier. Unqualified lookup starts in the static class of the object
        # expression, so a callee that lookup would not find there must have been named with a qualifier.
        b = m['inner'][0]
        while b.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): b = b['inner'][0]
        ty = self.type(b)
        while ty[0] in ('ptr', 'ref'): ty = ty[1]
        if ty[0] != 'cls': return False
        d = self.frame.tu.ids.get(m.get('referencedMemberDecl')) or {}
        found = self.lookup_member(ty[1], m.get('name'))
        if found is None: return False
        want = self.prog.decls.get(d.get('mangledName'))
        if want is None: return False
        return d.get('mangledName') not in found
    def lookup_member(self, cls, name):
        c = self.prog.classes.get(cls)
        if c is None: return None
        l = [x.get('mangledName') for x in c.methods if x.get('name') == name]
        if l: return l
        for b in c.bases:
            r = self.lookup_member(b, name)
            if r: return r
        return None
    def refcall(self, fn, ref, args, n):
        """method of an object behind a shared pointer or raw pointer known only by identity"""
        q = self.qname(fn)
        for key in ('ref:' + fn.name, 'ref:' + q):
            if key in self.contracts: return self.contracts[key](self, fn, ref, args, n)
        raise Unsupported('call of %s on a shared object' % q)
    def objcall(self, fn, lv, args, n):
        """virtual method of an object of unknown class owned at lv"""
        q = self.qname(fn)
        for key in ('obj:' + fn.name, 'obj:' + q):
            if key in self.contracts: return self.contracts[key](self, fn, lv, args, n)
        raise Unsupported('virtual call of %s on an object of unknown class' % q)
    def e_CallExpr(self, n):
        c = self.callee(n)
        args = n['inner'][1:]
        if c.get('kind') == 'DeclRefExpr':
            r = c['referencedDecl']
            fn = self.resolve(r['id'])
            if fn is not None and r['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                q = self.qname(fn)
                for key in (q + '/' + str(len(fn.params)), q) + (('*::' + fn.name,) if r['kind'] == 'CXXMethodDecl' else ()):
                    if key in self.contracts:
                        rr = self.contracts[key](self, fn, None, [self.ev(a) for a in args], n)
                        if rr is not NotImplemented: return rr
                if q.startswith('log') : return None
                if fn.body is not None: return self.call(fn, None, [self.ev(a) for a in args], n)
            return self.stdcall(r.get('name'), args, n, r)
        if c.get('kind') == 'LambdaExpr':
            return self.lamcall(self.ev(c), [self.ev(a) for a in args], n)
        raise Unsupported('call of ' + str(c.get('kind')))
    def lamcall(self, f, args, n):
        if isinstance(f, Fun): return self.funcall(f, [self.val(a) for a in args])
        if not isinstance(f, Lambda): raise Unsupported('call of %r' % (f,))
        node = f.node
        old = self.frame; oldouts = self.outs
        fr = Frame(f.frame.fn, None, parent=f.frame)
        fr.tu = f.frame.tu; fr.depth = getattr(old, 'depth', 0) + 1
        fr.chain_key = getattr(old, 'chain_key', '') + '/l' + (n['id'][-6:] if n else '')
        if len(fr.chain_key) > 40: fr.chain_key = hashlib.md5(fr.chain_key.encode()).hexdigest()[:10]
        rt = node['type']['qualType']; fr.retref = '-> ' in rt and rt.rsplit('-> ', 1)[1].strip().endswith('&')
        self.frame = fr
        params = [c for c in node.get('inner', []) if c['kind'] == 'ParmVarDecl']
        body = next(c for c in node.get('inner', []) if c['kind'] == 'CompoundStmt')
        self.bindparams(params, args, n)
        self.outs = {'ret': [], 'brk': [], 'cont': [], 'thr': oldouts['thr'] if oldouts else []}
        try:
            try:
                self.stmt(body); self.outs['ret'].append((self.S, None))
            except Exit: pass
            rets = self.outs['ret']
        finally: self.frame = old; self.outs = oldouts
        return self.mergerets(rets)
    def funcall(self, f, args):
        if f.bound is not None:
            args = [args[x[1] - 1] if isinstance(x, tuple) and x[0] == 'ph' else x for x in f.bound]
        args = [self.castto(a, ('real',), None) for a in args]
        return {'multiplies': mul, 'plus': add, 'minus': sub, 'divides': rdiv}[f.op](*args)
    def e_CXXOperatorCallExpr(self, n):
        c = self.callee(n); args = n['inner'][1:]
        r = c.get('referencedDecl', {})
        name = r.get('name')
        fn = self.resolve(r.get('id'))
        if name == 'operator()':
            a0 = self.ev(args[0])
            if isinstance(a0, (Lambda, Fun)): return self.lamcall(a0, [self.ev(a) for a in args[1:]], n)
            if isinstance(a0, LV):
                t = self.read(a0)
                if isinstance(t, (Lambda, Fun)): return self.lamcall(t, [self.ev(a) for a in args[1:]], n)
                if isinstance(t, T) and t.sort == 'Opq' and 'std:operator()' in self.contracts: return self.contracts['std:operator()'](self, None, a0, [self.ev(a) for a in args[1:]], n)
            if isinstance(a0, tuple) and a0[0] == 'obj': return self.stdcall(a0[1], args[1:], n, a0[2])
        if fn is not None:
            a0 = self.ev(args[0])
            av = [self.ev(a) for a in args[1:]]
            if r.get('kind') == 'CXXMethodDecl':
                if isinstance(a0, tuple) and a0[0] == 'ref': return self.refcall(fn, a0[1], av, n)
                if not isinstance(a0, LV): a0 = self.tmp(n, a0)
                t = self.read(a0)
                if isinstance(t, T): return self.objcall(fn, a0, av, n)
                f2 = self.dispatch(fn, a0) if name not in ('operator=',) else fn
                return self.invoke(f2, a0, av, n)
            return self.invoke(fn, None, [a0] + av, n)
        return self.stdop(name, args, n)

from stdlib import StdMixin
from loops import LoopMixin
class Sym(StdMixin, LoopMixin, Exec): pass
