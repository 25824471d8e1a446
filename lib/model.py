"""Program model of Cgl: builds LLVM bitcode from /repo's current sources (compile only,
nothing is run), turns it into JSON with tool/irx, and offers resolved views of it:
classes and field layouts from debug info, SSA functions, resolved (also virtual) calls,
functions with all of Cgl's own helpers inlined."""
import hashlib, json, os, re, subprocess, sys, concurrent.futures as cf, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CGL_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
CACHE = os.environ.get('CGL_CACHE') or os.path.join(VERIF, '.cache')

class AnalysisBroken(Exception):
    """The analysis cannot give a verdict (source does not parse, an anchor vanished)."""

# Translation units that the project builds here (see /opt/vp/cgl.mk): every source of these
# directories except the unit tests.
FULL_DIRS = ['CglCommon', 'CglAllDifferent', 'CglClique', 'CglDuplicateRow', 'CglKnapsackCover',
             'CglLiftAndProject', 'CglMixedIntegerRounding', 'CglOddHole', 'CglRedSplit',
             'CglSimpleRounding', 'CglZeroHalf']
# Directories that need a newer CoinUtils/Osi than installed here only for one OsiCuts method and
# two free functions: analysed with those declarations added (see overlay()).
OVERLAY_DIRS = ['CglFlowCover', 'CglGMI', 'CglGomory', 'CglMixedIntegerRounding2', 'CglProbing', 'CglRedSplit2',
                'CglResidualCapacity', 'CglTwomir']
# Single objects that build in directories whose main source needs a newer CoinUtils.
EXTRA_TUS = ['CglLandP/CglLandPMessages.cpp', 'CglLandP/CglLandPUtils.cpp', 'CglLandP/CglLandPValidator.cpp']

def tus():
    out = []
    for d in FULL_DIRS + OVERLAY_DIRS:
        p = os.path.join(SRC, d)
        if not os.path.isdir(p):
            raise AnalysisBroken('directory %s vanished' % p)
        fs = sorted(f for f in os.listdir(p) if f.endswith('.cpp') and not f.endswith('Test.cpp'))
        out += [os.path.join(d, f) for f in fs]
    for f in EXTRA_TUS:
        if not os.path.exists(os.path.join(SRC, f)):
            raise AnalysisBroken('source %s vanished' % f)
        out.append(f)
    return out

CXX = '/usr/lib/llvm-18/bin/clang++'
LINK = '/usr/lib/llvm-18/bin/llvm-link'
FLAGS = ['-std=gnu++17', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fstandalone-debug',
         '-fwhole-program-vtables', '-flto', '-DNDEBUG', '-DHAVE_CONFIG_H', '-DCGLLIB_BUILD', '-w',
         '-I' + os.path.join(VERIF, 'cfg')]

def incdirs():
    ds = ['CglCommon'] + sorted(d for d in os.listdir(SRC) if d.startswith('Cgl') and d != 'CglCommon' and os.path.isdir(os.path.join(SRC, d)))
    return ['-I' + os.path.join(SRC, d) for d in ds] + ['-I/usr/include/coin']

def tool():
    src = os.path.join(VERIF, 'tool', 'irx.cpp')
    exe = os.path.join(VERIF, 'tool', 'irx')
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        tmp = exe + '.%d' % os.getpid()
        r = subprocess.run(['g++', '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE',
                            '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS',
                            src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken('building irx failed:\n' + r.stderr[-2000:])
        os.replace(tmp, exe)
    return exe

def overlay():
    """Include directory whose OsiCuts.hpp is the installed one plus the declarations of the newer
    Osi that some Cgl sources call."""
    d = os.path.join(CACHE, 'overlay'); f = os.path.join(d, 'OsiCuts.hpp')
    src = open('/usr/include/coin/OsiCuts.hpp').read()
    if 'insertIfNotDuplicateAndClean' not in src:
        key = '  inline void insert(const OsiColCut &cc);'
        if src.count(key) != 1: raise AnalysisBroken('cannot extend OsiCuts.hpp')
        src = src.replace(key, '''  int insertIfNotDuplicateAndClean(OsiRowCut &rc, int typeCut, CoinAbsFltEq treatAsSame = CoinAbsFltEq(1.0e-12));
  int insertIfNotDuplicateAndClean(OsiRowCut &rc, int typeCut, CoinRelFltEq treatAsSame);
''' + key)
        k = src.rindex('#endif')
        src = src[:k] + '''int hashCut(const OsiRowCut &x, int size);
bool same(const OsiRowCut &x, const OsiRowCut &y);
''' + src[k:]
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(f) or open(f).read() != src:
        open(f + '.tmp%d' % os.getpid(), 'w').write(src); os.replace(f + '.tmp%d' % os.getpid(), f)
    return d

def headers_tu(work):
    """one unit that includes every public header, so that inline members nobody calls are analysed too"""
    hs = []
    for d in FULL_DIRS + OVERLAY_DIRS:
        hs += sorted(f for f in os.listdir(os.path.join(SRC, d)) if f.endswith('.hpp') and 'onfig' not in f)
    p = os.path.join(work, 'allheaders.cpp')
    # default construction as a caller sees it (with the default arguments of the header)
    cl = []
    for d in FULL_DIRS + OVERLAY_DIRS:
        for h in sorted(os.listdir(os.path.join(SRC, d))):
            if h.endswith('.hpp') and 'onfig' not in h:
                cl += re.findall(r'^class\s+(?:[A-Z]\w*_(?:EXPORT|LIB_EXPORT)\s+)?(Cgl\w+)\s*(?::[^;{]*)?\{', re.sub(r'//[^\n]*', '', open(os.path.join(SRC, d, h), errors='replace').read()), re.M)
    open(p, 'w').write(''.join('#include "%s"\n' % h for h in hs) + '#include <new>\n#include <type_traits>\n' +
        'template<class T> void vpDefault(void *p) { if constexpr (std::is_default_constructible<T>::value) ::new (p) T(); }\n' +
        ''.join('template void vpDefault<%s>(void *);\n' % c for c in sorted(set(cl))))
    return p

def _hash():
    h = hashlib.sha256()
    for root, ds, fs in sorted(os.walk(SRC)):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(('.cpp', '.hpp', '.h')):
                p = os.path.join(root, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    for p in [os.path.join(VERIF, 'tool', 'irx.cpp'), os.path.join(VERIF, 'cfg', 'config.h'), os.path.abspath(__file__)]:
        h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]

def _compile(work, rel):
    if rel == '<headers>':
        src = headers_tu(work); extra = ['-femit-all-decls', '-S', '-emit-llvm']; out = os.path.join(work, 'allheaders.ll')
    else:
        src = os.path.join(SRC, rel); extra = []; out = os.path.join(work, rel.replace('/', '__') + '.bc')
    r = subprocess.run([CXX] + FLAGS + extra + ['-include', os.path.join(overlay(), 'OsiCuts.hpp')] + incdirs() + ([] if '-S' in extra else ['-c']) + [src, '-o', out], capture_output=True, text=True)
    if rel == '<headers>' and r.returncode == 0:
        # the linker would drop inline members that nobody refers to
        t = open(out).read()
        t = re.sub(r'^define linkonce_odr ([^\n]*@_ZN?K?[^ (]*Cgl)', r'define weak_odr \1', t, flags=re.M)
        open(out, 'w').write(t)
    return rel, out, r

class Prog:
    def __init__(self):
        os.makedirs(CACHE, exist_ok=True)
        self.key = _hash()
        self.dir = os.path.join(CACHE, self.key)
        self.units = tus()
        if not os.path.exists(os.path.join(self.dir, 'ok')):
            self._build()
        self.skipped = open(os.path.join(self.dir, 'skipped')).read().split()
        d = json.load(open(os.path.join(self.dir, 'base.json')))
        self.files = d['files']
        self.classes = {}
        self.enums = {}
        for c in d['classes']:
            if 'enum' in c:
                self.enums.setdefault(c['enum'], c)
            else:
                # prefer repo definitions on a name clash
                if c['name'] not in self.classes or c['repo']:
                    self.classes[c['name']] = c
        self.globals = {g['name']: g for g in d['globals']}
        self.decls = {x['name']: x for x in d['decls']}
        self.typedefs = d['typedefs']
        self.fns = {f['name']: Fn(self, f, self.files) for f in d['fns']}
        self._layout = {}
        self._inl = {}

    def _build(self):
        exe = tool()
        # keep the cache small
        for old in os.listdir(CACHE):
            p = os.path.join(CACHE, old)
            if os.path.isdir(p) and old != self.key and old != 'overlay':
                shutil.rmtree(p, ignore_errors=True)
        work = tempfile.mkdtemp(prefix='w', dir=CACHE)
        try:
            with cf.ThreadPoolExecutor(8) as ex:
                overlay()
                res = list(ex.map(lambda u: _compile(work, u), ['<headers>'] + self.units))
            bad = [(r, x.stderr) for r, o, x in res if x.returncode]
            hard = [b for b in bad if b[0].split('/')[0] not in OVERLAY_DIRS]
            if hard:
                raise AnalysisBroken('does not parse: ' + '; '.join('%s: %s' % (r, e[:600]) for r, e in hard))
            res = [t for t in res if t[2].returncode == 0]
            open(os.path.join(work, 'skipped'), 'w').write('\n'.join(b[0] for b in bad))
            r = subprocess.run([LINK] + [o for _, o, _ in res] + ['-o', os.path.join(work, 'all.bc')], capture_output=True, text=True)
            if r.returncode:
                raise AnalysisBroken('llvm-link: ' + r.stderr[-1000:])
            r = subprocess.run([exe, os.path.join(work, 'all.bc'), os.path.join(work, 'base.json'), SRC], capture_output=True, text=True)
            if r.returncode:
                raise AnalysisBroken('irx: ' + r.stderr[-1000:])
            for _, o, _ in res:
                os.remove(o)
            open(os.path.join(work, 'ok'), 'w').close()
            if os.path.exists(self.dir):
                shutil.rmtree(self.dir, ignore_errors=True)
            os.rename(work, self.dir)
        except BaseException:
            shutil.rmtree(work, ignore_errors=True)
            raise

    # ---- inlined functions -------------------------------------------------
    def inlined(self, roots):
        """roots: list of mangled names or (name, [callees to keep as calls]). Returns {name: Fn}."""
        want = []
        for r in roots:
            nm, keep = (r, ()) if isinstance(r, str) else r
            key = (nm, tuple(sorted(keep)))
            if key not in self._inl:
                want.append(key)
        if want:
            fd, rf = tempfile.mkstemp(dir=CACHE); os.close(fd)
            of = rf + '.json'
            try:
                with open(rf, 'w') as f:
                    for nm, keep in want:
                        f.write(nm + ('|' + ','.join(keep) if keep else '') + '\n')
                r = subprocess.run([tool(), os.path.join(self.dir, 'all.bc'), of, SRC, rf], capture_output=True, text=True)
                if r.returncode:
                    raise AnalysisBroken('irx(inline): ' + r.stderr[-1000:])
                d = json.load(open(of))
            finally:
                for p in (rf, of):
                    if os.path.exists(p): os.remove(p)
            if d['missing']:
                raise AnalysisBroken('functions vanished: %s' % d['missing'])
            for key, f in zip(want, d['fns']):
                self._inl[key] = Fn(self, f, d['files'])
        out = {}
        for r in roots:
            nm, keep = (r, ()) if isinstance(r, str) else r
            out[nm] = self._inl[(nm, tuple(sorted(keep)))]
        return out

    # ---- classes -----------------------------------------------------------
    def cls(self, name):
        if name not in self.classes:
            raise AnalysisBroken('class %s vanished' % name)
        return self.classes[name]

    def derives(self, name, base):
        if name == base: return True
        c = self.classes.get(name)
        return bool(c) and any(self.derives(b, base) for b, _ in c['bases'])

    def layout(self, name):
        """[(offset, size, dotted name, type, owner class)] of all leaf fields, bases included.
        Members of repo class type are expanded; others are leaves."""
        if name in self._layout: return self._layout[name]
        c = self.cls(name); out = []
        for b, o in c['bases']:
            if b in self.classes and self.classes[b]['repo']:
                out += [(o + x, s, n, t, w) for x, s, n, t, w in self.layout(b)]
            elif b in self.classes:
                out.append((o, self.classes[b]['size'], b, b, name))
        for m in c['mem']:
            if m.get('static') or m.get('art'): continue
            if m['n'].startswith('_vptr'): continue
            t = m['t'].replace('const ', '')
            if t in self.classes and self.classes[t]['repo']:
                out += [(m['o'] + x, s, m['n'] + '.' + n, tt, w) for x, s, n, tt, w in self.layout(t)]
            else:
                out.append((m['o'], m['s'], m['n'], m['t'], name))
        self._layout[name] = out
        return out

    def field(self, cls, off):
        for o, s, n, t, w in self.layout(cls):
            if o == off or (o < off < o + s): return n
        return None

    def field_off(self, cls, fname):
        for o, s, n, t, w in self.layout(cls):
            if n == fname: return o
        raise AnalysisBroken('field %s::%s vanished' % (cls, fname))

    def methods(self, cls, name=None):
        return [m for m in self.cls(cls)['meth'] if name is None or m['n'] == name]

    def vmethod(self, cls, slot):
        c = self.classes.get(cls)
        if not c: return None
        for m in c['meth']:
            if m.get('virt') == slot and not m['n'].startswith('~'): return (cls, m)
        for b, _ in c['bases']:
            r = self.vmethod(b, slot)
            if r: return r
        return None

    def ancestors(self, cls):
        c = self.classes.get(cls)
        return [cls] + [a for b, _ in c['bases'] for a in self.ancestors(b)] if c else []

    def find(self, qname, nparams=None, pred=None):
        """mangled names of repo functions whose qualified name is qname"""
        out = []
        for n, f in self.fns.items():
            if f.qname == qname and (nparams is None or len(f.args) == nparams) and (pred is None or pred(f)):
                out.append(n)
        return sorted(out)

    def find1(self, qname, pred=None):
        r = self.find(qname, pred=pred)
        if len(r) != 1:
            raise AnalysisBroken('expected exactly one definition of %s, found %s' % (qname, r))
        return r[0]

    def generators(self):
        return sorted(c for c in self.classes if self.classes[c]['repo'] and c != 'CglCutGenerator' and self.derives(c, 'CglCutGenerator'))

def qualname(dem):
    """qualified function name without return type, template arguments and parameters"""
    s = dem
    out = []; depth = 0; i = 0; name = ''
    # cut parameter list: first '(' at template depth 0 that is not part of operator() / (anonymous namespace)
    while i < len(s):
        ch = s[i]
        if s.startswith('(anonymous namespace)', i) and depth == 0:
            name += '(anon)'; i += len('(anonymous namespace)'); continue
        if s.startswith('operator', i) and depth == 0 and (i == 0 or not (s[i-1].isalnum() or s[i-1] == '_')):
            m = re.match(r'operator(\(\)|\[\]|<<=|>>=|<<|>>|<=>|<=|>=|->\*|->|<|>|new\[\]|delete\[\]| new\[\]| delete\[\]| new| delete|[^\w\s(]+|\s[\w:<>*& ]+)', s[i:])
            if m:
                name += m.group(0); i += len(m.group(0)); continue
        if ch == '<': depth += 1
        elif ch == '>': depth -= 1
        elif ch == '(' and depth == 0: break
        elif depth == 0: name += ch
        i += 1
    name = name.strip()
    if ' ' in name and 'operator' not in name:
        name = name.split(' ')[-1]
    return name.lstrip('*&')

_qn = {}
def qn(prog, mangled):
    if mangled in _qn: return _qn[mangled]
    d = prog.decls.get(mangled)
    r = qualname(d['dem']) if d else mangled
    _qn[mangled] = r
    return r

class Ins:
    __slots__ = ('id', 'op', 'd', 'blk', 'fn', 'pos')
    def __init__(self, d, fn, blk, pos):
        self.id = d['i']; self.op = d['op']; self.d = d; self.fn = fn; self.blk = blk; self.pos = pos
    @property
    def a(self): return self.d.get('a', [])
    @property
    def ty(self): return self.d.get('ty')
    @property
    def callee(self): return self.d.get('callee')
    def loc(self):
        l = self.d.get('l')
        if not l: return '%s:?' % os.path.relpath(self.fn.file or '', REPO)
        return '%s:%d' % (os.path.relpath(self.fn.files[l[0]], REPO), l[1])
    def line(self):
        l = self.d.get('l'); return l[1] if l else 0
    def infn(self):
        """source function (mangled) that this instruction was written in"""
        l = self.d.get('l'); return l[2] if l else ''
    def __repr__(self): return '<%d %s %s>' % (self.id, self.op, self.loc())

class Fn:
    def __init__(self, prog, d, files):
        self.prog = prog; self.name = d['name']; self.dem = d['dem']; self.file = d.get('file'); self.line = d.get('line')
        self.args = d['args']; self.anames = d.get('anames', []); self.ptypes = d.get('ptypes', []); self.files = files
        self.capped = d.get('capped', False); self.ninlined = d.get('inlined', 0)
        self.qname = qualname(self.dem)
        if self.name.startswith('_ZZ'): self.qname += '::{local}::()'     # a lambda or local class: not the function it is written in
        self.blocks = []; self.ins = {}
        for bi, b in enumerate(d['b']):
            L = []
            for k, i in enumerate(b):
                x = Ins(i, self, bi, k); self.ins[x.id] = x; L.append(x)
            self.blocks.append(L)
        self.succ = [self._succ(b[-1]) if b else [] for b in self.blocks]
        self.pred = [[] for _ in self.blocks]
        for b, ss in enumerate(self.succ):
            for s in ss:
                if b not in self.pred[s]: self.pred[s].append(b)
        self._vt = None; self._dom = None; self._calls = {}; self._uses = None
        self._ptr = {}
    @property
    def cls(self):
        return self.qname.rsplit('::', 1)[0] if '::' in self.qname else None
    def where(self): return '%s:%s' % (os.path.relpath(self.file or '?', REPO), self.line)
    def _succ(self, t):
        d = t.d
        if t.op == 'br': return list(dict.fromkeys(d['t']))
        if t.op == 'switch': return list(dict.fromkeys([c[1] for c in d['cases']] + [d['def']]))
        return []
    def all(self):
        for b in self.blocks:
            for i in b: yield i
    def uses(self):
        if self._uses is None:
            u = {}
            def add(v, i):
                if isinstance(v, int): u.setdefault(v, []).append(i)
                elif isinstance(v, dict) and 'a' in v and isinstance(v['a'], int) and len(v) == 1: u.setdefault(('arg', v['a']), []).append(i)
            for i in self.all():
                d = i.d
                for v in d.get('a', []): add(v, i)
                if 'b' in d: add(d['b'], i)
                for v in d.get('v', []): add(v[0], i)
                for v in d.get('in', []): add(v[0], i)
                if 'cond' in d: add(d['cond'], i)
                if 'fp' in d: add(d['fp'], i)
            self._uses = u
        return self._uses
    # -- pointers
    def ptr(self, v):
        """(root, const offset, has_variable_index); root in ('arg',k) ('ins',id) ('glob',n) ('null',) ('?',)"""
        off = 0; var = False
        while True:
            if isinstance(v, int):
                i = self.ins[v]
                if i.op == 'getelementptr':
                    if i.d['o'] is None: var = True
                    else: off += i.d['o']
                    if i.d['v']: var = True
                    v = i.d['b']; continue
                if i.op in ('bitcast', 'addrspacecast', 'freeze'):
                    v = i.a[0]; continue
                return (('ins', v), off, var)
            if 'a' in v and isinstance(v['a'], int) and 'ce' not in v: return (('arg', v['a']), off, var)
            if 'g' in v: return (('glob', v['g']), off, var)
            if 'null' in v: return (('null',), off, var)
            if v.get('ce') == 'gep': off += v['o']; v = v['b']; continue
            return (('?',), off, var)
    # -- calls
    def _vtables(self):
        if self._vt is None:
            self._vt = {}
            for i in self.all():
                if i.op == 'call' and i.callee in ('llvm.public.type.test', 'llvm.type.test'):
                    r, o, _ = self.ptr(i.a[0])
                    self._vt[r] = i.a[1].get('md', '')
        return self._vt
    def call(self, i):
        """resolved call: dict(q=qualified name, m=mangled, const=bool, virt=bool, recv=operand) or None"""
        if i.op not in ('call', 'invoke'): return None
        if i.id in self._calls: return self._calls[i.id]
        r = None
        if i.callee:
            m = i.callee
            r = dict(q=qn(self.prog, m), m=m, const=m.startswith('_ZNK'), virt=False)
        else:
            fp = i.d.get('fp')
            r = dict(q='<indirect>', m='', const=False, virt=False)
            if isinstance(fp, int) and self.ins[fp].op == 'load':
                root, off, var = self.ptr(self.ins[fp].a[0])
                md = self._vtables().get(root)
                if md is None:
                    # same vtable pointer loaded twice: look for a type.test on a load of the same object
                    md = ''
                    if root[0] == 'ins' and self.ins[root[1]].op == 'load':
                        src = self.ptr(self.ins[root[1]].a[0])
                        for rr, m2 in self._vtables().items():
                            if rr[0] == 'ins' and self.ins[rr[1]].op == 'load' and self.ptr(self.ins[rr[1]].a[0]) == src: md = m2
                if md and not var and off % 8 == 0:
                    cn = tsname(md)
                    vm = self.prog.vmethod(cn, off // 8)
                    if vm:
                        ln = vm[1]['ln'] or ''
                        r = dict(q=cn + '::' + vm[1]['n'], m=ln, const=ln.startswith('_ZNK'), virt=True, owner=vm[0], meth=vm[1])
                    elif any(m['n'].startswith('~') for c2 in self.prog.ancestors(cn) for m in self.prog.classes[c2]['meth']):
                        # debug info gives destructors no slot: they are the two slots nobody else has
                        k = off // 8
                        r = dict(q=cn + '::~' + cn, m='', const=False, virt=True, dtor=True,
                                 deleting=k > 0 and self.prog.vmethod(cn, k - 1) is None)
                    else:
                        r = dict(q=cn + '::<slot%d>' % (off // 8), m='', const=False, virt=True)
        self._calls[i.id] = r
        return r
    # -- dominators
    def dom(self):
        if self._dom is None:
            n = len(self.blocks)
            order = self.rpo(); idx = {b: k for k, b in enumerate(order)}
            idom = {order[0]: order[0]}
            ch = True
            while ch:
                ch = False
                for b in order[1:]:
                    ps = [p for p in self.pred[b] if p in idom]
                    if not ps: continue
                    new = ps[0]
                    for p in ps[1:]:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]: x = idom[x]
                            while idx[y] > idx[x]: y = idom[y]
                        new = x
                    if idom.get(b) != new: idom[b] = new; ch = True
            self._dom = idom
        return self._dom
    def dominates(self, a, b):
        idom = self.dom()
        while True:
            if a == b: return True
            if b not in idom or idom[b] == b: return False
            b = idom[b]
    def rpo(self):
        seen = set(); out = []; st = [(0, iter(self.succ[0]))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succ[s]))); break
            else:
                out.append(b); st.pop()
        return out[::-1]
    def exits(self):
        return [b[-1] for b in self.blocks if b and b[-1].op == 'ret']

def tsname(ts):
    """_ZTS18OsiSolverInterface -> OsiSolverInterface (last component of a nested name)"""
    s = ts[4:] if ts.startswith('_ZTS') else ts
    if s.startswith('N'): s = s[1:]
    parts = []
    while s and s[0].isdigit():
        m = re.match(r'\d+', s); k = int(m.group(0)); s = s[len(m.group(0)):]
        parts.append(s[:k]); s = s[k:]
    return parts[-1] if parts else ts

def isconst(v): return isinstance(v, dict) and ('c' in v or 'f' in v or 'null' in v)
def cval(v):
    if isinstance(v, dict):
        if 'c' in v: return v['c']
        if 'f' in v: return float(v['f'])
        if 'null' in v: return None
    raise ValueError(v)
