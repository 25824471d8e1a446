"""C06: separation only ever appends to the caller's cut collection."""
import re
from flow import flow, const_pointee
from paths import Paths

META = {'rule': 'Points-to over each function that receives an OsiCuts: the collection itself is reached only by const members and insertions; a cut inside it is changed only if its index is bounded below by a size of the same collection (so it was added by this call).',
        'assumptions': ['OsiCuts::insert* append', 'the caller\'s strengthenRow array holds no cut of the collection on entry']}
APPEND = re.compile(r'OsiCuts::(insert\w*|rowCutPtr|rowCut|colCutPtr|colCut|cutPtr)$')

def site(prog, i, f):
    return prog.fns[i.infn()].qname if i.infn() in prog.fns else f.qname

def run(prog, r):
    R = []
    for n, f in sorted(prog.fns.items()):
        sh = 1 if f.args and f.args[0].get('sret') else 0
        for k, t in enumerate(f.ptypes[1:]):
            if re.match(r'OsiCuts [&*]$', t): R.append((n, k + sh))
    prog.inlined([n for n, _ in R])
    for n, k in R:
        F = flow(prog, n); f = F.fn; P = Paths(f)
        CS = ('arg', k)
        T = lambda v: any(o == CS for o, x in F.val(v))
        size = {}
        def issize(kind):
            def b(i):
                if i.op not in ('call', 'invoke'): return False
                c, recv, _ = F.callinfo(i)
                return c['q'] == 'OsiCuts::size%sCuts' % kind and recv is not None and any(o == CS and x == 0 for o, x in F.val(recv))
            return b
        ptrs = {}      # accessor results
        def src(v, seen=None):
            """accessor calls (or None) that a pointer into the collection comes from"""
            seen = seen or set()
            if not isinstance(v, int): return {None}
            if v in seen: return set()
            seen.add(v); i = f.ins[v]
            if i.op in ('getelementptr',): return src(i.d['b'], seen)
            if i.op in ('bitcast', 'freeze'): return src(i.a[0], seen)
            if i.op == 'phi': return set().union(*[src(x, seen) for x, b in i.d['in'] if T(x)] or [set()])
            if i.op == 'select': return set().union(*[src(x, seen) for x in i.a[1:] if T(x)] or [set()])
            if i.op in ('call', 'invoke'):
                c, recv, _ = F.callinfo(i)
                if c['q'] in ('OsiCuts::rowCutPtr', 'OsiCuts::rowCut', 'OsiCuts::colCutPtr', 'OsiCuts::colCut'): return {i}
                if recv is not None and T(recv): return src(recv, seen)
            if i.op == 'load':
                # stored earlier: only calls that can precede matter
                return {'mem'}
            return {None}
        nsite = 0
        for i in f.all():
            how = None; through = None
            if i.op == 'store' and T(i.a[1]): how = 'is written to'; through = i.a[1]
            elif i.op in ('call', 'invoke'):
                c, recv, args = F.callinfo(i); q = c['q']
                if q.startswith('llvm.'):
                    if q.startswith('llvm.mem') and T(i.a[0]): how = 'is overwritten'; through = i.a[0]
                elif recv is not None and T(recv):
                    nsite += 1
                    if not c['const'] and not APPEND.match(q): how = 'is changed by %s' % q; through = recv
                if not how and not q.startswith('llvm.'):
                    for a, t in args:
                        if T(a) and t and not const_pointee(t) and 'OsiCuts' not in t: how = 'is passed to %s' % q; through = a
            if not how: continue
            srcs = src(through)
            whole = any(o == CS and x == 0 for o, x in F.val(through)) and None in srcs
            ok = True; why = ''
            for s in srcs:
                if s is None:
                    # the collection itself: a path on which the pointer really is the caller's collection?
                    ok = not reaches(F, P, CS, through, i)
                    why = 'the collection'
                elif s == 'mem':
                    acc = [j for j in f.all() if j.op in ('call', 'invoke') and f.call(j)['q'] in ('OsiCuts::rowCutPtr', 'OsiCuts::rowCut') and P.before(j, i)]
                    if acc: ok = False; why = 'a cut of the collection'
                else:
                    c, recv, args = F.callinfo(s)
                    kind = 'Row' if 'row' in c['q'] else 'Col'
                    if recv is not None and not reaches(F, P, CS, recv, i): continue
                    if not P.guarded_atleast(args[0][0], issize(kind), i.blk) and not P.guarded_atleast(args[0][0], issize(kind), s.blk):
                        ok = False; why = 'a cut of the collection whose index is not bounded by its size before'
                if not ok: break
            if ok: r.ok('change', '%s at %s' % (how, i.loc()))
            else: r.bad('change', '%s:%s' % (site(prog, i, f), how), '%s: %s that %s was given %s (in %s)' % (i.loc(), why, f.qname, how, site(prog, i, f)))
        r.ok('collection', '%s: %d uses' % (f.qname, nsite))
    r.need('collection', 30)

def reaches(F, P, CS, v, at):
    """is there a consistent path on which v is the caller's collection when `at` executes?"""
    f = F.fn
    def edges(v, seen):
        if not isinstance(v, int): return [None]
        if v in seen: return []
        seen.add(v); i = f.ins[v]
        if i.op == 'phi':
            out = []
            for x, b in i.d['in']:
                if not any(o == CS for o, y in F.val(x)): continue
                es = edges(x, seen)
                out += [e if e is not None else (b, i.blk) for e in es]
            return out
        return [None]
    es = edges(v, set())
    for e in es:
        if e is None or P.feasible(0, at.blk, via=e, facts={('cmp', 'eq', ('a', CS[1]), ('null',)): False}): return True
    return False
