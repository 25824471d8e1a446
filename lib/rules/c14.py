"""C14: every cut that is added is complete."""
import re
from model import AnalysisBroken, isconst, cval
from access import root as rt_
from flow import flow
from paths import Paths
from walk import Walk
from rules.c08 import entries

META = {'rule': 'State of every cut object (row set? lower bound? upper bound?) carried forward over all paths from its construction, and from one insertion to the next when the object is used again, '
                'over the separation entry points and the functions that store cuts, with helpers inlined. At every insertion into a collection the object has a row and a bound that is not infinite; '
                'an object without a row must be the mark of an infeasible problem (lower bound above upper bound, both constant); a column cut has bounds. '
                'Where the row is given by local arrays and a constant length, every position of both arrays has been written.',
        'assumptions': ['a bound of 1e30 or more, or one read from a getInfinity() or INFINIT setting, is no bound', 'exceptions and process exits are not returns']}
BIG = 1e30
INF, MINF, VAL, NO = 'inf', '-inf', 'val', 'no'
NEG = {INF: MINF, MINF: INF, VAL: VAL}
NOBOUND = (NO, INF, MINF)

def site(prog, i, f):
    return prog.fns[i.infn()].qname if i.infn() in prog.fns else f.qname

def num(v):
    if isconst(v):
        if 'f' in v: return float(v['f'])
        if 'c' in v: return float(v['c'])
    return None

def bound(prog, F, cls, v, d=0):
    """class of a bound: ('c', x), 'inf' or 'val'"""
    n = num(v)
    if n is not None: return INF if n >= BIG else MINF if n <= -BIG else ('c', n)
    if isinstance(v, int) and d < 6:
        i = F.fn.ins[v]
        if i.op == 'fneg': 
            b = bound(prog, F, cls, i.a[0], d + 1)
            return ('c', -b[1]) if isinstance(b, tuple) else NEG[b]
        if i.op == 'fmul':
            for x, y in ((i.a[0], i.a[1]), (i.a[1], i.a[0])):
                if num(x) is not None and num(x) != 0 and bound(prog, F, cls, y, d + 1) == INF: return INF if num(x) > 0 else MINF
        if i.op in ('call', 'invoke') and re.search(r'::getInfinity$|::getINFINIT$', F.fn.call(i)['q']): return INF
        if i.op == 'load':
            t = F.val(i.a[0])
            if t and all(o == ('arg', 0) and x != '*' and re.search('INFINIT', str(prog.field(cls, x))) for o, x in t): return INF
        if i.op in ('phi',):
            s = {bound(prog, F, cls, x, d + 1) for x, _ in i.d['in']}
            if len(s) == 1: return s.pop()
    return VAL

class Obj:
    """events on one cut object"""
    def __init__(self): self.ev = {}

def collect(prog, F, cls):
    """{object: {block: [(instruction, event, data)]}} of the cut objects made in the function"""
    f = F.fn; out = {}; kind = {}
    def objs(v): return [o for o, x in F.val(v)]
    calls = [i for i in f.all() if i.op in ('call', 'invoke') and not f.call(i)['q'].startswith('llvm.')]
    for i in calls:
        q = f.call(i)['q']; m = re.search(r'(?:^|::)Osi(Row|Col)Cut::Osi(Row|Col)Cut$', q)
        if m and i.a:
            for o in objs(i.a[0]):
                if o[0] in ('alloca', 'new'): kind[o] = m.group(1)
    def add(o, i, e, d=None): out.setdefault(o, {}).setdefault(i.blk, []).append((i, e, d))
    for i in calls:
        q = f.call(i)['q']; short = q.rsplit('::', 1)[-1]
        a = i.a
        if not a: continue
        t = [o for o in objs(a[0]) if o in kind]
        one = len(objs(a[0])) == 1
        if re.search(r'Osi(Row|Col)Cut::|OsiCut::', q):
            for o in t:
                if short in ('OsiRowCut', 'OsiColCut'):
                    if len(a) == 1: add(o, i, 'new')
                    elif len(a) == 2: add(o, i, 'full')
                    else: add(o, i, 'full')
                elif short == 'operator=': add(o, i, 'full', one)
                elif short == 'setRow': add(o, i, 'norow' if len(a) > 2 and isconst(a[1]) and cval(a[1]) == 0 else 'row', one)
                elif short == 'mutableRow': add(o, i, 'row', one)
                elif short in ('setLb', 'setUb'): add(o, i, short[3:].lower(), (one, bound(prog, F, cls, a[1])))
                elif short in ('setLbs', 'setUbs'): add(o, i, short[3:5].lower(), (one, VAL))
            if short in ('OsiRowCut', 'OsiColCut') and len(a) == 2:
                for o in objs(a[1]):
                    if o in kind and o not in t: add(o, i, 'copy')
        elif re.search(r'OsiCuts::insert', q):
            for x in a[1:2]:
                for o in objs(x):
                    if o in kind: add(o, i, 'insert')
                    elif o[0] in ('alloca', 'new'):
                        for off, s in F.mem.get(o, {}).items():
                            for oo, xx in s:
                                if oo in kind: add(oo, i, 'insert')
    for o in out:
        for b in out[o]: out[o][b].sort(key=lambda e: e[0].pos)
    return out, kind

def step(st, e, d, kind):
    """set of states after one event; a state is (row, lb, ub)"""
    if e == 'new': return {(False, NO, NO)}
    if e == 'full': return {(True, VAL, VAL)} | (st if d is False else set())
    if e == 'row':
        n = {(True, l, u) for r, l, u in st}
        return n if d else n | st
    if e == 'norow': return {(False, l, u) for r, l, u in st}
    if e == 'lb' or e == 'ub':
        one, b = d if isinstance(d, tuple) else (d, VAL)
        n = {(r, b, u) if e == 'lb' else (r, l, b) for r, l, u in st}
        return n if one else n | st
    return st

def ok(s, kind):
    r, l, u = s
    if kind == 'Col': return l != NO or u != NO
    if not r:
        return l == INF and (isinstance(u, tuple) or u == MINF) or u == MINF and isinstance(l, tuple) or isinstance(l, tuple) and isinstance(u, tuple) and l[1] > u[1]
    if l == INF or u == MINF or isinstance(l, tuple) and isinstance(u, tuple) and l[1] > u[1]: return False
    return l not in NOBOUND or u not in NOBOUND

def missing(s, kind):
    r, l, u = s
    if kind == 'Col': return 'bounds'
    if l == INF or u == MINF or isinstance(l, tuple) and isinstance(u, tuple) and l[1] > u[1]: return 'row' if not r and (l, u) == (NO, NO) else 'bounds in the right order'
    if not r: return 'row'
    return 'bound'

def run(prog, r):
    R = entries(prog)
    seen = set()
    todo = [(n, g) for n, g in R]
    # the other functions that store cuts
    for n, f in sorted(prog.fns.items()):
        if f.cls in prog.classes and prog.classes[f.cls]['repo'] and (f.cls == 'CglStored' and re.search(r'::(addCut|saveStuff|CglStored)$', f.qname) or re.search(r'CglTreeProbingInfo::generateCuts|CglTreeInfo::generateCuts', f.qname)):
            todo.append((n, f.cls))
    prog.inlined([rt_(n, g) for n, g in todo])
    for n, cls in todo:
        F = flow(prog, n, cls); f = F.fn; P = Paths(f)
        objs, kind = collect(prog, F, cls)
        W = None
        for o in sorted(objs):
            evs = objs[o]; kd = kind[o]
            starts = []
            for b, L in evs.items():
                for i, e, d in L:
                    if e == 'new': starts.append((b, i.pos, (False, NO, NO), 'made', i))
                    elif e in ('insert', 'copy'): starts.append((b, i.pos, (False, NO, NO), 'used before', i))
            for b0, p0, s0, how, i0 in starts:
                # insertions reached
                chk = {}
                st = {s0}
                def visit(b, st, p):
                    for i, e, d in evs.get(b, ()):
                        if i.pos <= p: continue
                        if e == 'new': return
                        if e in ('insert', 'copy'):
                            chk.setdefault(i.id, (i, set()))[1].update(st)
                            if e == 'insert' : return
                        st = step(st, e, d, kd)
                # insertions end the life that started at `start`
                IN = flowto(f, evs, (b0, p0, s0), kd)
                visit(b0, {s0}, p0)
                for b, st in IN.items(): visit(b, set(st), -1)
                for iid, (i, sts) in sorted(chk.items()):
                    what = '%s (object %s at %s)' % (i.loc(), how, i0.loc())
                    bad = [s for s in sts if not ok(s, kd)]
                    if kd == 'Col' and len(bad) < len(sts): bad = []        # which bounds are set depends on counts
                    if how == 'used before' and kd == 'Row':
                        # what an earlier use left behind counts as set only if it was set again
                        lo = {l for r_, l, u in sts}; up = {u for r_, l, u in sts}
                        if not bad:
                            allev = [(e, d) for L in evs.values() for j, e, d in L if e in ('lb', 'ub') and d[1] not in (INF, MINF)]
                            for e, col in (('lb', lo), ('ub', up)):
                                if NO in col and any(x == e for x, d in allev): bad = [s for s in sts if (s[1] if e == 'lb' else s[2]) == NO]; 
                    if not bad: r.ok('insert', what); continue
                    W = W or Walk(F, f, P, {}, ())
                    res = None
                    for s in bad:
                        m = missing(s, kd)
                        def sets(e, d):
                            if kd == 'Col': return e in ('lb', 'ub', 'full', 'new')
                            if e in ('full', 'new'): return True
                            if m == 'row': return e == 'row'
                            if how == 'used before' and ok(s, kd): return e == ('lb' if s[1] == NO else 'ub')
                            if m == 'bounds in the right order': return e == 'lb' and d[1] != s[1] or e == 'ub' and d[1] != s[2]
                            return e in ('lb', 'ub') and d[1] not in (INF, MINF)
                        stop = {b for b, L in evs.items() for j, e, d in L if sets(e, d) and (b != i.blk or j.pos < i.pos) and (b != b0 or j.pos > p0)}
                        for b, L in evs.items():
                            if b != i.blk and b != b0 and any(e == 'insert' for j, e, d in L): stop.add(b)
                        if b0 == i.blk and p0 < i.pos: p = None if b0 in stop else [b0]
                        else: p = W.run(i.blk, stop - {b0}, start=b0) if i.blk not in stop or i.blk == b0 else None
                        if p is not None: res = (m, p, s); 
                        if p is not None and p != 'cap': break
                    if res is None: r.ok('insert', what)
                    elif res[1] == 'cap' or flagged(f, P, W, b0, i.blk): r.undecided('insert', what)
                    else:
                        m = res[0]
                        if how == 'used before' and ok(res[2], kd): m = 'lower bound' if res[2][1] == NO else 'upper bound'
                        r.bad('insert', '%s:%s:%s' % (site(prog, i, f), kd, m), '%s: %s adds a cut whose %s is not set on a path from %s (%s)' % (i.loc(), site(prog, i, f), m, i0.loc(), 'its construction' if how == 'made' else 'its previous use'))
        arrays(prog, r, F, f, P, cls)
    r.need('insert', 60); r.need('array', 30)

def flowto(f, evs, start, kind):
    """like dataflow, but an insertion ends the life of a state"""
    b0, p0, s0 = start
    IN = {}
    def out(b, st, p=-1):
        for i, e, d in evs.get(b, ()):
            if i.pos <= p: continue
            if e in ('new', 'insert'): return set()
            st = step(st, e, d, kind)
        return st
    wl = [(s, frozenset(out(b0, {s0}, p0))) for s in f.succ[b0]]
    while wl:
        b, st = wl.pop()
        if not st: continue
        cur = IN.setdefault(b, set())
        if set(st) <= cur: continue
        cur |= st
        o = frozenset(out(b, set(cur)))
        for s in f.succ[b]: wl.append((s, o))
    return IN

def arrays(prog, r, F, f, P, cls):
    """local arrays that give a row of constant length are completely written"""
    W = None
    for i in f.all():
        if i.op not in ('call', 'invoke'): continue
        q = f.call(i)['q']
        m = re.search(r'Osi(Row|Col)Cut::(setRow|setLbs|setUbs)$', q)
        if not m or len(i.a) < 4 or not isconst(i.a[1]): continue
        n = cval(i.a[1])
        if not 0 < n <= 16: continue
        for arg, w in ((i.a[2], 4), (i.a[3], 8)):
            t = list(F.val(arg))
            if len(t) != 1 or t[0][0][0] != 'alloca' or t[0][1] == '*': r.undecided('array', '%s array of unknown origin' % i.loc()); continue
            o, base = t[0]
            for k in range(n):
                off = base + k * w
                st = {}; vague = False
                for j in f.all():
                    if j.op == 'store':
                        v = list(F.val(j.a[1]))
                        for oo, x in v:
                            if oo == o and x == '*': vague = True
                            if oo == o and x == off and len(v) == 1: st.setdefault(j.blk, []).append(j.pos)
                    elif j.op in ('call', 'invoke') and j is not i:
                        c = f.call(j)['q']
                        if c.startswith('llvm.mem'):
                            v = list(F.val(j.a[0]))
                            for oo, x in v:
                                if oo == o and len(v) == 1 and (x == '*' or not isconst(j.a[2])): vague = True
                                elif oo == o and len(v) == 1 and x <= off and off + w <= x + cval(j.a[2]): st.setdefault(j.blk, []).append(j.pos)
                        elif not c.startswith('llvm.') and not re.search(r'Osi(Row|Col)Cut::|CoinPackedVector', c) and any(oo == o for y in j.a for oo, x in F.val(y)): vague = True
                what = '%s position %d of %s' % (i.loc(), k, 'indices' if w == 4 else 'elements')
                if vague: r.undecided('array', what); continue
                stop = {b for b, ps in st.items() if b != i.blk or any(p < i.pos for p in ps)}
                if i.blk in stop: r.ok('array', what); continue
                W = W or Walk(F, f, P, {}, ())
                d = common(f, [i.blk] + sorted(st))
                p = W.run(i.blk, stop, start=d) if d != i.blk else [d]
                if p is None: r.ok('array', what)
                elif p == 'cap' or flagged(f, P, W, d, i.blk): r.undecided('array', what)
                else: r.bad('array', '%s:%s:%d' % (site(prog, i, f), 'indices' if w == 4 else 'elements', k), '%s: %s hands over a row of %d entries whose position %d (%s) is not written on every path' % (i.loc(), site(prog, i, f), n, k, 'index' if w == 4 else 'element'))

def common(f, bs):
    """nearest block that dominates all of them (the first visit of it comes before any of them)"""
    idom = f.dom()
    def chain(b):
        out = [b]
        while idom.get(b, b) != b: b = idom[b]; out.append(b)
        return out
    c = [x for x in chain(bs[0])]
    for b in bs[1:]:
        s = set(chain(b)); c = [x for x in c if x in s]
    return c[0] if c else 0

def flagged(f, P, W, d, b):
    """is reaching b from d decided by a value that is merged in between and that the path search cannot follow?"""
    for k, t in P.guards(b):
        for l in P.leaves(k):
            i = f.ins[l]
            if i.op == 'phi' and l not in W.allphi and i.blk != d and f.dominates(d, i.blk) and not any(f.dominates(i.blk, p) for p in f.pred[i.blk]): return True
    return False
