"""C05: what the caller hands over as const stays as it was."""
import re
from model import AnalysisBroken
from flow import flow, const_pointee

META = {'rule': 'Inclusion-based points-to over each entry point with all Cgl helpers inlined: no store, memory intrinsic, non-const member call or non-const parameter may reach the solver (or another const argument, or *this of a const query); '
                'a factorization switched on in the caller\'s solver is switched off on every path to a return.',
        'assumptions': ['const member functions of Osi/CoinUtils classes do not change what the caller can observe (enableFactorization excepted and paired)',
                        'exceptions and process exits end the call and are not counted as returns',
                        'library containers keep the pointers stored in them; other library objects copy']}

PURE_C = ('printf', 'fprintf', 'puts', 'strlen', 'strcmp', 'strncmp', 'fopen', 'sprintf', 'snprintf', 'memcmp', 'strdup', 'fputs', 'perror', 'strchr', 'strstr', 'atoi', 'atof', 'CoinStrdup')

def roots(prog):
    out = []
    pub = {}
    for c, d in prog.classes.items():
        if not d['repo']: continue
        for m in d['meth']:
            if m.get('ln'): pub[m['ln']] = m.get('acc')
    for n, f in prog.fns.items():
        if 'vpDefault' in n: continue
        if not (f.file or '').startswith(__import__('model').SRC): continue
        sh = 1 if f.args and f.args[0].get('sret') else 0
        for k, t in enumerate(f.ptypes[1:]):
            if re.match(r'const OsiSolverInterface [&*]$', t): out.append((n, k + sh, 'solver', t))
            elif k == 0 and n.startswith('_ZNK') and re.match(r'const [\w:]+ \*$', t): out.append((n, k + sh, 'query', t))
            elif k > 0 or '::' not in f.qname:
                m = re.match(r'const ([\w:]+) [&*]$', t)
                if not m: continue
                c = m.group(1).split('::')[-1]
                if c in prog.classes and (pub.get(n) == 'public'): out.append((n, k + sh, 'input', t))
    return out

def touches(F, pred):
    """[(instruction, how)] of every write to an object satisfying pred"""
    out = []
    T = lambda v: any(pred(o, x) for o, x in F.val(v))
    for i in F.fn.all():
        if i.op == 'store':
            if T(i.a[1]): out.append((i, 'is written to'))
        elif i.op in ('call', 'invoke'):
            c, recv, args = F.callinfo(i); q = c['q']
            if q.startswith('llvm.'):
                if q.startswith('llvm.mem') and T(i.a[0]): out.append((i, 'is overwritten by %s' % q.split('.')[1]))
                continue
            if i.d.get('sret') and T(i.a[0]): out.append((i, 'receives the result of %s' % q))
            if recv is not None and T(recv) and not c['const']: out.append((i, 'is changed by %s' % q))
            if q in PURE_C: continue
            for k, (a, t) in enumerate(args):
                if not T(a): continue
                if t is None:
                    if q in ('memcpy', 'memmove', 'strcpy') and k != 0: continue
                    if q.endswith('insert') or '::OsiCuts' in q or q.endswith('operator='): continue
                    out.append((i, 'is passed to %s' % q))
                elif not const_pointee(t): out.append((i, 'is passed to %s as %s' % (q, t)))
    return out

def run(prog, r):
    R = roots(prog)
    prog.inlined([n for n, *_ in R])
    done = set()
    for n, k, kind, t in R:
        F = flow(prog, n); f = F.fn
        if kind == 'solver': pred = lambda o, x: F.root(o) == ('arg', k)
        else: pred = lambda o, x: o == ('arg', k)
        w = touches(F, pred)
        if kind == 'query':
            # mutable members are the class's own business
            c = f.cls.split('::')[-1] if f.cls else ''
            mut = set()
        what = 'the solver' if kind == 'solver' else '*this' if kind == 'query' else 'argument %d (%s)' % (k, t)
        if not w: r.ok(kind, f.qname)
        for i, how in w:
            src = prog.fns[i.infn()].qname if i.infn() in prog.fns else f.qname
            if (src, how, kind) in done: continue
            done.add((src, how, kind))
            r.bad(kind, '%s:%s' % (src, how), '%s: %s, which %s takes as const, %s (in %s)' % (i.loc(), what, f.qname, how, src))
        if kind == 'solver': pairing(prog, r, F, k)
    r.need('solver', 40); r.need('query', 60); r.need('input', 40)

def pairing(prog, r, F, k):
    """enableFactorization ... disableFactorization on every path"""
    f = F.fn
    ev = {}
    for i in f.all():
        if i.op in ('call', 'invoke'):
            c, recv, _ = F.callinfo(i)
            s = c['q'].rsplit('::', 1)[-1]
            if s in ('enableFactorization', 'disableFactorization', 'enableSimplexInterface', 'disableSimplexInterface') and recv is not None and any(F.root(o) == ('arg', k) for o, x in F.val(recv)):
                ev[i.id] = s
    if not ev: return
    # forward: set of possible states (open calls) per block
    for fam in ('Factorization', 'SimplexInterface'):
        st = {0: {0}}; wl = [0]; bad = None
        while wl:
            b = wl.pop(); s = set(st[b])
            for i in f.blocks[b]:
                if ev.get(i.id) == 'enable' + fam: s = {1}
                elif ev.get(i.id) == 'disable' + fam: s = {0}
            if f.blocks[b][-1].op == 'ret' and 1 in s: bad = f.blocks[b][-1]
            for t in f.succ[b]:
                if not s <= st.get(t, set()): st[t] = st.get(t, set()) | s; wl.append(t)
        if fam == 'Factorization' or any(fam in x for x in ev.values()):
            if bad is not None: r.bad('factorization', f.qname, '%s: %s can return with enable%s of the caller\'s solver not undone' % (bad.loc(), f.qname, fam))
            else: r.ok('factorization', f.qname)
