"""Program database: the clang JSON AST of every translation unit of the repository, extracted on every run."""
import json, subprocess, os, glob, re, hashlib
from concurrent.futures import ThreadPoolExecutor

INC = """include include/snn/data include/snn/neural_network include/snn/neural_network/layer
include/snn/neural_network/layer/neuron include/snn/neural_network/layer/neuron/activation_function
include/snn/neural_network/optimizer include/snn/tools src/external_library/boost_1_80_0_minimal
src/external_library/bitmap""".split()

def docs(s):
    d = json.JSONDecoder(); i = 0; out = []; n = len(s)
    while True:
        while i < n and s[i] in ' \n\t\r': i += 1
        if i >= n: return out
        o, i = d.raw_decode(s, i); out.append(o)

class Unsupported(Exception): pass

def split_targs(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '<([': d += 1
        if ch in '>)]': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

class TU:
    """declarations of one translation unit by id"""
    def __init__(self, path):
        self.path = path; self.ids = {}
        self.refs = {}; self.allrefs = []     # functions (all declarations) referred to

class Fn:
    def __init__(self, node, tu, cls):
        self.node = node; self.tu = tu; self.cls = cls
        self.name = node.get('name'); self.mangled = node.get('mangledName')
        self.params = [c for c in node.get('inner', []) if c['kind'] == 'ParmVarDecl']
        self.body = next((c for c in node.get('inner', []) if c['kind'] in ('CompoundStmt', 'CXXTryStmt')), None)
        self.inits = [c for c in node.get('inner', []) if c['kind'] == 'CXXCtorInitializer']
        self.type = node['type']['qualType']
        self.virtual = node.get('virtual', False)

class Cls:
    def __init__(self, name, node, tu):
        self.name = name; self.node = node; self.tu = tu
        self.fields = []      # (name, type string, decl node)
        self.bases = []
        self.methods = []     # decl nodes

class Prog:
    def __init__(self, root, files=None, extra=()):
        self.root = root
        self.tus = {}; self.classes = {}; self.enums = {}; self.bodies = {}; self.decls = {}; self.enumtypes = set()
        self.globals = {}
        self.qual = {}
        self.lambdas = {}
        fs = files or sorted(f for f in glob.glob(os.path.join(root, 'src/**/*.cpp'), recursive=True) if 'external_library' not in f) + list(extra)
        # same node ids on every run, if address randomisation can be switched off (only the names of auxiliary variables depend on it)
        self.noaslr = ['setarch', '-R'] if subprocess.run(['setarch', '-R', 'true'], capture_output=True).returncode == 0 else []
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(self.dump, fs))
        self.errors = []
        for f, out, err, rc in res:
            if rc != 0: self.errors.append((f, err[-2000:])); continue
            tu = TU(f); self.tus[f] = tu
            for d in docs(out): self.scan(d, tu, None, [])
        self.freefunctions()
        self.demangle()

    def freefunctions(self):
        """functions outside the namespace that the code of a file defines and calls"""
        done = set()
        for rnd in range(4):
            jobs = {}
            for f, tu in list(self.tus.items()):
                if isinstance(f, tuple): src = f[0]
                else: src = f
                text = None
                for r in tu.refs.values():
                    nm = r.get('name', '')
                    if r['id'] in tu.ids or (f, nm) in done or not re.fullmatch(r'\w+', nm): continue
                    if text is None: text = open(src, errors='replace').read()
                    if re.search(r'^[\w:<>,&*\s\[\]]*[\s&*]%s\s*\([^;{}]*\)[^;{}]*\{' % nm, text, re.M): jobs[(f, nm)] = src
            if not jobs: return
            done |= set(jobs)
            with ThreadPoolExecutor(8) as ex: res = list(ex.map(lambda j: self.dump(j[1], j[0][1]), jobs.items()))
            for ((f, nm), src), (_, out, err, rc) in zip(jobs.items(), res):
                if rc != 0: continue
                tu = self.tus[f]
                t2 = tu if self.noaslr else self.tus.setdefault((src, nm), TU(src))
                for d in docs(out):
                    if d.get('name') != nm or d.get('kind') not in ('FunctionDecl', 'FunctionTemplateDecl'): continue
                    self.scan(d, t2, None, [])
                    for c in [d] + [c for c in d.get('inner', []) if c.get('kind') == 'FunctionDecl']:
                        for r in tu.refs.values():
                            if r.get('name') == nm and r['id'] not in tu.ids and r.get('type', {}).get('qualType') == c.get('type', {}).get('qualType') and 'mangledName' in c: tu.ids[r['id']] = c
                if t2 is not tu:
                    # node ids differ between the two runs of clang: declarations are found by name and type
                    known = {}
                    for i, d in tu.ids.items(): known.setdefault((d.get('kind'), d.get('name'), d.get('type', {}).get('qualType')), d)
                    for r in t2.allrefs:
                        d = known.get((r.get('kind'), r.get('name'), r.get('type', {}).get('qualType')))
                        if d is not None: t2.ids.setdefault(r['id'], d)

    def dump(self, f, filter='snn::'):
        cmd = self.noaslr + ['/usr/bin/clang++-18', '-std=c++20', '-fopenmp-simd'] + ['-I' + os.path.join(self.root, i) for i in INC] + \
              ['-w', '-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filter, f]
        p = subprocess.run(cmd, capture_output=True, text=True, cwd=self.root)
        return f, p.stdout, p.stderr, p.returncode

    def cname(self, node):
        if node['kind'] == 'ClassTemplateSpecializationDecl':
            a = []
            for c in node.get('inner', []):
                if c['kind'] == 'TemplateArgument':
                    a.append(norm_type(c['type'].get('desugaredQualType', c['type']['qualType'])) if 'type' in c else str(c.get('value')))
            return '%s<%s>' % (node['name'], ', '.join(a))
        return node.get('name')

    def scan(self, n, tu, cls, tmpl):
        if not isinstance(n, dict): return
        k = n.get('kind')
        if k == 'DeclRefExpr' and 'referencedDecl' in n:
            r = n['referencedDecl']; tu.allrefs.append(r)
            if r.get('kind') == 'FunctionDecl': tu.refs[r['id']] = r
        if 'id' in n and k and k.endswith('Decl') and len(n) >= len(tu.ids.get(n['id'], ())): tu.ids[n['id']] = n
        if k == 'EnumDecl':
            self.enumtypes.add(n.get('name'))
            v = 0
            for c in n.get('inner', []):
                if c['kind'] == 'EnumConstantDecl':
                    val = find_value(c)
                    if val is not None: v = val
                    tu.ids[c['id']] = c
                    c['_value'] = v; c['_enum'] = n.get('name')
                    self.enums[(n.get('name'), c['name'])] = v
                    v += 1
            return
        if k in ('ClassTemplateDecl', 'FunctionTemplateDecl'):
            inner = n.get('inner', [])
            # children: template params, the pattern, then the specializations
            seen_pattern = False
            for c in inner:
                if c['kind'] in ('CXXRecordDecl', 'FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl') and not seen_pattern and k == 'ClassTemplateDecl' and c['kind'] == 'CXXRecordDecl':
                    seen_pattern = True; continue
                if k == 'FunctionTemplateDecl' and not seen_pattern and c['kind'] in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
                    seen_pattern = True; continue
                self.scan(c, tu, cls, tmpl)
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl') and n.get('completeDefinition'):
            name = self.cname(n) or ('lambda@' + n['id'])
            key = name
            c = Cls(key, n, tu)
            for b in n.get('bases', []):
                c.bases.append(norm_type(b['type'].get('desugaredQualType', b['type']['qualType'])))
            for m in n.get('inner', []):
                if m['kind'] == 'FieldDecl':
                    c.fields.append((m.get('name'), m['type'].get('desugaredQualType', m['type']['qualType']), m))
                if m['kind'] in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'): c.methods.append(m)
            if key not in self.classes or len(self.classes[key].methods) < len(c.methods): self.classes[key] = c
            for m in n.get('inner', []): self.scan(m, tu, c, tmpl)
            return
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'):
            fn = Fn(n, tu, cls)
            if fn.mangled:
                if fn.body is not None and not self.bodies.get(fn.mangled): self.bodies[fn.mangled] = fn
                self.decls.setdefault(fn.mangled, fn)
        if k == 'VarDecl' and n.get('mangledName'): self.globals.setdefault(n['mangledName'], (n, tu))
        for c in n.get('inner', []): self.scan(c, tu, cls if k != 'NamespaceDecl' else None, tmpl)

    def demangle(self):
        names = sorted(set(self.decls) | set(self.bodies))
        p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        for m, q in zip(names, p.stdout.split('\n')):
            self.qual[m] = norm_type(q.replace('[abi:cxx11]', ''))
        self.byqual = {}
        for m, q in self.qual.items():
            self.byqual.setdefault(fn_base(q), []).append(m)

    def find(self, qname, nparams=None, ptypes=None, need_body=True):
        """function by normalised qualified name, e.g. 'Convolution1D::computeOutput'"""
        l = [m for m in self.byqual.get(qname, []) if not need_body or m in self.bodies]
        if ptypes is not None: l = [m for m in l if ptypes in self.qual[m]]
        if nparams is not None: l = [m for m in l if len(self.decls[m].params) == nparams]
        # C1/C2 constructors are the same function
        if not l: raise Unsupported('function %s not found' % qname)
        return self.bodies.get(l[0]) or self.decls[l[0]]

    def fields(self, cls):
        c = self.classes.get(cls)
        if c is None: raise Unsupported('class %s not found' % cls)
        out = []
        for b in c.bases: out += self.fields(b)
        return out + c.fields

    def is_base(self, base, cls):
        if base == cls: return True
        c = self.classes.get(cls)
        return c is not None and any(self.is_base(base, b) for b in c.bases)

    def overrider(self, cls, name, sig):
        """most derived method of class cls with this name and signature; returns mangled name"""
        c = self.classes.get(cls)
        if c is None: return None
        for m in c.methods:
            if m.get('name') == name and sig_norm(m['type']['qualType']) == sig_norm(sig):
                mn = m.get('mangledName')
                return mn
        for b in c.bases:
            r = self.overrider(b, name, sig)
            if r: return r
        return None

def find_value(c):
    for x in c.get('inner', []):
        if x.get('kind') == 'ConstantExpr' and 'value' in x: return int(x['value'])
    return None

NS = re.compile(r'\b(snn|internal|tools|std|__cxx11|ranges|chrono)::')
def norm_type(s):
    s = s.strip()
    s = NS.sub('', s)
    s = s.replace('class ', '').replace('struct ', '').replace('enum ', '')
    return s
def sig_norm(s):
    return re.sub(r'\s*noexcept(\(\w+\))?', '', NS.sub('', s)).replace('class ', '').strip()
def fn_base(q):
    """strip the parameter list of a demangled name"""
    d = 0; i = 0
    q0 = q
    # operator() special case
    for i, ch in enumerate(q):
        if ch == '<' and not q[:i].endswith('operator'): d += 1
        elif ch == '>' and d > 0: d -= 1
        elif ch == '(' and d == 0:
            if q[:i].endswith('operator'): continue
            b = q[:i]
            # return type of templates
            dd = 0
            for j in range(len(b) - 1, -1, -1):
                if b[j] == '>': dd += 1
                elif b[j] == '<': dd -= 1
                elif b[j] == ' ' and dd == 0 and 'operator' not in b[j:]: return b[j + 1:]
            return b
    return q0

# ---------------------------------------------------------------- types
INTS = {'int', 'long', 'long long', 'short', 'char', 'signed char', 'int64_t', 'int32_t', 'ptrdiff_t', 'difference_type', 'rep'}
UINTS = {'unsigned int', 'unsigned long', 'unsigned long long', 'size_t', 'unsigned char', 'unsigned short', 'size_type', 'uint64_t', 'uint32_t'}
def parse_type(p, s):
    s = norm_type(s)
    s = s.replace('const ', '').replace(' const', '').replace('volatile ', '').strip()
    if s.endswith('&&'): return ('ref', parse_type(p, s[:-2]))
    if s.endswith('&'): return ('ref', parse_type(p, s[:-1]))
    if s.endswith('*'): return ('ptr', parse_type(p, s[:-1]))
    m = re.match(r'^(.*\S)\s*\[(\d+)\]$', s)
    if m: return ('vec', parse_type(p, m.group(1)), int(m.group(2)))
    if s in INTS: return ('int',)
    if s in UINTS: return ('uint',)
    if s in ('float', 'double', 'long double'): return ('real',)
    if s == 'bool': return ('bool',)
    if s == 'void': return ('void',)
    if s in ('string', 'basic_string<char>', 'basic_string<char, char_traits<char>, allocator<char>>'): return ('str',)
    if s in p.enumtypes: return ('int',)
    if s.endswith('>') and '<' in s:
        i = s.index('<'); h = s[:i]; a = split_targs(s[i + 1:-1])
        if h in ('vector', 'vector2D', 'vector3D', 'initializer_list'):
            t = parse_type(p, a[0])
            for _ in range({'vector2D': 1, 'vector3D': 2}.get(h, 0)): t = ('vec', t)
            return ('vec', t)
        if h == 'unique_ptr': return ('uniq', parse_type(p, a[0]))
        if h == 'shared_ptr': return ('shared', parse_type(p, a[0]))
        if h == 'optional': return ('opt', parse_type(p, a[0]))
        if h == '__gnu_cxx::__normal_iterator' or h == '__normal_iterator':
            return ('iter', None)
        if h == 'uniform_real_distribution': return ('opaque', 'dist')
        if h == 'array': return ('opaque', s)
        if h == 'duration': return ('dur', parse_type(p, a[0]))
        if h == 'time_point': return ('opaque', 'time_point')
        if h == 'unordered_map' or h == 'map': return ('opaque', s)
        if s in p.classes: return ('cls', s)
        return ('opaque', s)
    if s in p.classes: return ('cls', s)
    if s in ('milliseconds', 'seconds', 'minutes', 'hours', 'nanoseconds'): return ('dur', ('int',))
    return ('opaque', s)

if __name__ == '__main__':
    import time
    t = time.time(); P = Prog('/repo'); print(time.time() - t, len(P.bodies), len(P.classes), P.errors)
    for q in sorted(P.byqual): print(q, len(P.byqual[q]))
