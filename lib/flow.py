"""Inclusion-based points-to analysis of one (inlined) SSA function, field sensitive for constant
offsets, flow insensitive.  Abstract objects:
  ('arg',k)      what pointer argument k points to (library objects include all their interior)
  ('mem',o,off)  what the pointer held by slot off of the caller-visible object o points to on entry
  ('new',i) ('alloca',i) ('lib',i) ('glob',g)
Pointers are (object, offset) with offset '*' for anywhere inside.
"""
import re
from model import AnalysisBroken

# library results that are new objects owned by the caller
FRESH = {'clone', 'getWarmStart', 'getBasis', 'getEmptyWarmStart', 'getPointerToWarmStart'}
ALLOC = {'operator new', 'operator new[]', 'malloc', 'calloc', '_Znwm', '_Znam'}

def params_of(dem):
    """parameter types of a demangled signature"""
    depth = 0; end = None
    s = re.sub(r'\s*const$', '', dem)
    if not s.endswith(')'): return []
    k = len(s) - 1
    while k >= 0:
        if s[k] == ')': depth += 1
        elif s[k] == '(':
            depth -= 1
            if depth == 0: break
        k -= 1
    body = s[k + 1:-1]
    out = []; cur = ''; d = 0
    for ch in body:
        if ch in '<([': d += 1
        if ch in '>)]': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip() and cur.strip() != 'void': out.append(cur.strip())
    return out

def const_pointee(t):
    """does a parameter of this type promise not to modify what it points to (or is it no pointer)?"""
    t = t.strip()
    if not t.endswith(('*', '&', '[]', ']')) and '*' not in t and '&' not in t: return True
    u = re.sub(r'&+$', '', t).strip() if t.endswith('&') else re.sub(r'\*(\s*const)?$', '', t).strip()
    return u.endswith('const')

_dem = {}
def demangle(m):
    if m not in _dem:
        import subprocess
        _dem[m] = subprocess.run(['c++filt', m], capture_output=True, text=True).stdout.strip() if m.startswith('_Z') else m
    return _dem[m]

class Flow:
    def __init__(self, prog, fn):
        self.prog = prog; self.fn = fn
        self.pt = {}          # ssa id -> set of (obj, off)
        self.mem = {}         # obj -> {off: set}
        self.ext = {}
        self._solve()

    # ---- values
    def val(self, v):
        if isinstance(v, int): return self.pt.get(v, ())
        if isinstance(v, dict):
            if 'a' in v and isinstance(v['a'], int) and 'ce' not in v: return self._arg(v['a'])
            if 'g' in v: return ((('glob', v['g']), 0),)
            if v.get('ce') == 'gep':
                return tuple((o, (x + v['o']) if x != '*' else '*') for o, x in self.val(v['b']))
        return ()
    def _arg(self, k):
        return ((('arg', k), 0),)
    def root(self, o):
        """outermost caller-visible object that o is part of, or None"""
        while o[0] == 'mem': o = o[1]
        return o if o[0] in ('arg', 'glob') else None
    def islib(self, o):
        """is the pointee a library object whose interior we do not look into?"""
        if o[0] == 'arg':
            t = self.fn.ptypes[o[1] + 1] if o[1] + 1 < len(self.fn.ptypes) else ''
            m = re.match(r'(?:const )?([A-Za-z_]\w*)', t.replace('const ', ''))
            return bool(m) and (m.group(1) in self.prog.classes) and not self.prog.classes[m.group(1)]['repo']
        return False
    def content(self, o, off):
        s = self.mem.get(o, {})
        out = set()
        if off == '*':
            for x in s.values(): out |= x
        else:
            out |= s.get(off, set()); out |= s.get('*', set())
        r = self.root(o)
        if r is not None and o[0] != 'glob':
            if self.islib(o): out.add((o, '*'))
            elif o[0] == 'mem' and self.depth(o) >= 3: out.add((o, '*'))
            elif off != '*': out.add((('mem', o, off), 0))
            else: out.add((('mem', o, '*'), 0))
        elif o[0] == 'glob': out.add((('mem', o, off), 0)) if self.mutglob(o[1]) else None
        elif o[0] == 'lib': out.add((o, '*'))
        return out
    def mutglob(self, g):
        x = self.prog.globals.get(g); return bool(x) and not x.get('const')
    def depth(self, o):
        d = 0
        while o[0] == 'mem': o = o[1]; d += 1
        return d

    def _add(self, i, s):
        t = self.pt.setdefault(i, set())
        n = len(t)
        for q in s:
            if q in t or (q[1] != '*' and (q[0], '*') in t and q[0][0] != 'arg'): continue
            t.add(q)
            if q[1] != '*' and len(t) > 12:
                k = [x for x in t if x[0] == q[0]]
                if len(k) > 10 and q[0] != ('arg', 0):
                    for x in k: t.discard(x)
                    t.add((q[0], '*')); self.changed = True
        if len(t) != n: self.changed = True
    def _put(self, o, off, s):
        d = self.mem.setdefault(o, {}).setdefault(off, set())
        n = len(d); d |= set(s)
        if len(d) != n: self.changed = True

    def _solve(self):
        fn = self.fn
        isptr = lambda i: i.ty in (None, 'ptr') or 'ptr' in str(i.ty)
        order = [i for b in fn.rpo() for i in fn.blocks[b]]
        order = [i for i in order if i.op in ('alloca', 'getelementptr', 'bitcast', 'phi', 'select', 'load', 'store', 'call', 'invoke', 'freeze', 'inttoptr', 'ptrtoint', 'extractvalue', 'insertvalue')]
        self.changed = True; it = 0
        while self.changed:
            self.changed = False; it += 1
            if it > 60: raise AnalysisBroken('points-to does not settle in ' + fn.dem)
            for i in order: self._step(i)
        self.iters = it

    def _step(self, i):
        op = i.op; d = i.d
        if op == 'alloca': self._add(i.id, [(('alloca', i.id), 0)])
        elif op == 'getelementptr':
            base = self.val(d['b']); k = d['o']; var = bool(d['v']) or k is None
            out = []
            for o, x in base:
                if x == '*': out.append((o, '*'))
                elif var:
                    out.append((o, '*') if o[0] != 'arg' or k is None or self.islib(o) or (x == 0 and k == 0) else (o, x + k))
                else: out.append((o, x + k))
            self._add(i.id, out)
        elif op in ('bitcast', 'freeze', 'inttoptr', 'ptrtoint', 'extractvalue'):
            self._add(i.id, self.val(i.a[0]))
        elif op == 'insertvalue': self._add(i.id, list(self.val(i.a[0])) + list(self.val(i.a[1])))
        elif op == 'phi':
            for v, b in d['in']: self._add(i.id, self.val(v))
        elif op == 'select':
            for v in i.a[1:]: self._add(i.id, self.val(v))
        elif op == 'load':
            if i.ty is not None and i.ty != 'ptr': return
            for o, x in list(self.val(i.a[0])): self._add(i.id, self.content(o, x))
        elif op == 'store':
            s = self.val(i.a[0])
            if s:
                for o, x in list(self.val(i.a[1])): self._put(o, x, s)
        elif op in ('call', 'invoke'): self._call(i)

    def callinfo(self, i):
        """(info, receiver operand or None, [(operand, param type or None)])"""
        c = self.fn.call(i); a = list(i.a)
        if i.d.get('sret'): a = a[1:]
        if c['virt']: return c, (a[0] if a else None), [(x, None) for x in a[1:]] if not c.get('m') else list(zip(a[1:], self._params(c['m'], len(a) - 1)))
        m = c['m']
        d = self.prog.decls.get(m)
        np = len(params_of(d['dem'] if d else demangle(m))) if m.startswith('_ZN') else -5
        mem = m.startswith('_ZNK') or (len(a) == np + 1) or (np >= 0 and len(a) != np and self.ismember(m))
        if mem: return c, a[0], list(zip(a[1:], self._params(m, len(a) - 1)))
        return c, None, list(zip(a, self._params(m, len(a))))
    def _params(self, m, n):
        d = self.prog.decls.get(m)
        p = params_of(d['dem'] if d else demangle(m))
        if len(p) < n: p = p + [None] * (n - len(p))
        return p[:n] if len(p) == n else [None] * n
    def ismember(self, m):
        """mangled name of a non-static member of a class"""
        if not m.startswith('_ZN'): return False
        if m.startswith('_ZNK'): return True
        q = self.fn.prog and self._q(m)
        if '::' not in q: return False
        c = q.rsplit('::', 1)[0]
        base = c.split('::')[-1]
        if c.startswith('std') or c.startswith('__gnu'):
            if c in ('std', 'std::__detail', '__gnu_cxx', 'std::_V2', 'std::ranges'): return False
            return True
        cc = self.prog.classes.get(base)
        if cc:
            for mm in cc['meth']:
                if mm.get('ln') == m: return not mm.get('static')
        return base in self.prog.classes
    def _q(self, m):
        from model import qn
        return qn(self.prog, m)

    def _call(self, i):
        c, recv, args = self.callinfo(i)
        q = c['q']; short = q.rsplit('::', 1)[-1]; cls = q.rsplit('::', 1)[0] if '::' in q else ''
        if q.startswith('llvm.'):
            if q.startswith(('llvm.memcpy', 'llvm.memmove')): self._copy(i.a[0], i.a[1]); 
            return
        if q in ALLOC: self._add(i.id, [(('new', i.id), 0)]); return
        if q == 'realloc':
            self._add(i.id, [(('new', i.id), 0)])
            for o, x in list(self.val(i.a[0])):
                for off, s in list(self.mem.get(o, {}).items()): self._put(('new', i.id), off, s)
                if self.root(o) is not None: self._put(('new', i.id), '*', self.content(o, '*'))
            return
        if q in ('memcpy', 'memmove', 'strcpy', 'strncpy'): self._copy(i.a[0], i.a[1]); self._add(i.id, self.val(i.a[0])); return
        if q == '__dynamic_cast': self._add(i.id, [(o, '*' if self.islib(o) else x) for o, x in self.val(i.a[0])]); return
        if q.startswith('CoinCopyOfArray'):
            n = ('new', i.id); self._add(i.id, [(n, 0)])
            for o, x in list(self.val(i.a[0])): self._put(n, '*', self.content(o, '*'))
            return
        if q in ('CoinMemcpyN', 'CoinDisjointCopyN', 'CoinCopyN', 'std::copy', 'CoinDisjointCopy', 'CoinCopy'):
            dst = i.a[2]; src = i.a[0]; self._copy(dst, src); self._add(i.id, self.val(dst)); return
        if q in ('CoinFillN', 'std::fill'):
            return
        rets = set()
        ro = set(self.val(recv)) if recv is not None else set()
        if short in FRESH: rets.add((('lib', i.id), 0))
        elif recv is not None:
            shallow = 'Shallow' in cls or 'iterator' in cls
            for o, x in ro:
                rets.add((o, '*' if not (o[0] == 'arg' and o[1] == 0 and x != '*') else x))
                if shallow: rets |= self.content(o, '*')
        else: rets.add((('lib', i.id), 0))
        # pointers that are kept by the receiver
        if recv is not None and not c['const'] and (cls.startswith(('std', '__gnu')) or 'Shallow' in cls) and not short.startswith('~'):
            for a, t in args:
                pv = list(self.val(a))
                if not pv: continue
                for o, x in ro:
                    tgt = (o, '*' if not (o[0] == 'arg' and o[1] == 0) else x)
                    self._put(tgt[0], tgt[1], pv)
                    for oo, xx in pv:
                        if oo[0] in ('alloca', 'new') and t and '&' in t: self._put(tgt[0], tgt[1], self.mem.get(oo, {}).get(xx, set()))
        if i.d.get('sret'):
            for o, x in list(self.val(i.a[0])): self._put(o, '*', rets)
            return
        # const accessors of number type return nothing to follow; keep it anyway (harmless)
        if 'ptr' in str(i.ty): self._add(i.id, rets)

    def _copy(self, dst, src):
        for o, x in list(self.val(src)):
            for p, y in list(self.val(dst)):
                for off, s in list(self.mem.get(o, {}).items()):
                    if off == '*' or x == '*' or y == '*': self._put(p, '*', s)
                    else: self._put(p, y + off - x, s)
                if self.root(o) is not None and o != p: self._put(p, '*', self.content(o, '*'))

_f = {}
def flow(prog, name, cls=None):
    k = (id(prog), name, cls)
    if k not in _f:
        fn = prog.inlined([(name, ('!' + cls,)) if cls else name])[name]
        _f[k] = Flow(prog, fn)
    return _f[k]
