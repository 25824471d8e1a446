"""C11: limits and switches that the user sets are obeyed by separation."""
import re
from model import AnalysisBroken, isconst, cval
from access import root as rt_, find, reads, spec
from flow import flow
from paths import Paths
from walk import Walk, INV
from sccp import Sccp, k as const
from rules.c08 import entries
from rules.c07 import site
from rules.c13 import empty

META = {'rule': 'Comparisons with a limit are found as linear forms in which the limit has coefficient one. All of them are forced to the answer they give for a quantity beyond the limit; then no insertion of a cut may be reachable '
                'from the entry, from another insertion, or (for cuts in work arrays) from a statement that puts another entry into the arrays of the cut. Where a cut has a constant number of entries, its violation '
                'is computed symbolically from its bounds, coefficients and columns, and must be at least what the guarding comparison established. With a method switched off, conditional constant propagation leaves its settings unread, '
                'and with all methods off leaves every insertion unreachable.',
        'assumptions': ['the solver answers getColSolution, getColLower and getColUpper consistently within one call']}
# class, query of the limit, +1: quantity has to reach it / -1: must not exceed it, start points
LIMITS = [('CglStored', 'getRequiredViolation', 1, ('entry', 'insert')),
          ('CglClique', 'getMinViolation', 1, ('entry', 'insert', 'fill')),
          ('CglOddHole', 'getMinimumViolation', 1, ('entry', 'insert', 'fill')),
          ('CglRedSplit', 'param.MAX_SUPPORT', -1, ('fill',))]
ACC = re.compile(r'::(getColSolution|getColLower|getColUpper)$')

def limit(prog, cls, q):
    if '.' in q:
        m = [o for o, s, n, t, w in prog.layout(cls) if n == q]
        if not m:
            g = find(prog, 'CglParam', 'get' + q.split('.')[1] + '()')
            rd = reads(prog, g, 'CglParam') if g else set()
            base = [o for o, s, n, t, w in prog.layout(cls) if n == 'param' or n.startswith('param.')]
            m = [min(base) + o for o in rd] if base and len(rd) == 1 else []
    else:
        g = find(prog, cls, q + '()')
        m = list(reads(prog, g, cls)) if g else []
    if len(m) != 1: raise AnalysisBroken('%s: limit behind %s not found' % (cls, q))
    return m[0]

class Lin:
    """polynomials over the values of a function"""
    def __init__(self, prog, F, P, toff):
        self.prog = prog; self.F = F; self.f = F.fn; self.P = P; self.toff = toff; self._t = {}
    def isT(self, i):
        if i.id not in self._t: self._t[i.id] = self._isT(i)
        return self._t[i.id]
    def _isT(self, i):
        if i.op != 'load' or self.toff is None: return False
        t = self.F.val(i.a[0])
        if not t: return False
        if all(o == ('arg', 0) and x == self.toff for o, x in t): return True
        if len(t) == 1:
            # a member of a local copy that was given the caller's limit last
            (o, x), = t
            if o[0] != 'alloca' or x == '*': return False
            st = [j for j in self.f.all() if j.op == 'store' and any(oo == o and xx == x for oo, xx in self.F.val(j.a[1]))]
            me = [j for j in st if isinstance(j.a[0], int) and self.f.ins[j.a[0]].op == 'load' and self.F.val(self.f.ins[j.a[0]].a[0]) and all(oo == ('arg', 0) and xx == self.toff for oo, xx in self.F.val(self.f.ins[j.a[0]].a[0]))]
            dom = lambda a, b: (a.blk == b.blk and a.pos < b.pos) or (a.blk != b.blk and self.f.dominates(a.blk, b.blk))
            return any(dom(m, i) and all(j is m or dom(j, m) for j in st) for m in me)
        return False
    def leaf(self, i):
        if self.isT(i): return ('T',)
        if i.op == 'load':
            a = i.a[0]
            if isinstance(a, int) and self.f.ins[a].op == 'getelementptr' and len(self.f.ins[a].d['v']) == 1 and self.f.ins[a].d['o'] == 0:
                g = self.f.ins[a].d
                return (self.src(g['b']) or ('ld', strip(self.P.expr(g['b']))), strip(self.P.expr(g['v'][0][0])))
        return ('v', i.id)
    def src(self, v):
        """accessor of the solver a pointer comes from"""
        if isinstance(v, int):
            i = self.f.ins[v]
            if i.op in ('call', 'invoke'):
                m = ACC.search(self.f.call(i)['q'])
                if m: return m.group(1)
        return None
    def poly(self, v, d=0):
        if isinstance(v, tuple): return self.tree(v)
        if not isinstance(v, int):
            if isinstance(v, dict) and 'f' in v: return {(): float(v['f'])}
            if isinstance(v, dict) and 'c' in v: return {(): float(v['c'])}
            return {((('o', repr(v)),)): 1.0}
        i = self.f.ins[v]
        if d < 12:
            if i.op in ('fadd', 'fsub', 'add', 'sub'): return add(self.poly(i.a[0], d + 1), self.poly(i.a[1], d + 1), 1 if i.op in ('fadd', 'add') else -1)
            if i.op == 'fneg': return add({}, self.poly(i.a[0], d + 1), -1)
            if i.op in ('fmul', 'mul'): return mul(self.poly(i.a[0], d + 1), self.poly(i.a[1], d + 1))
            if i.op in ('sext', 'zext', 'sitofp', 'fpext'): return self.poly(i.a[0], d + 1)
            if i.op == 'call' and re.match(r'llvm\.(fmuladd|fma)\.', self.f.call(i).get('m') or self.f.call(i)['q']): return add(mul(self.poly(i.a[0], d + 1), self.poly(i.a[1], d + 1)), self.poly(i.a[2], d + 1), 1)
        return {(self.leaf(i),): 1.0}
    def tree(self, e):
        if e[0] == 'i': return self.poly(e[1])
        if e[0] == 'f': return {(): float(e[1])}
        if e[0] == 'c': return {(): float(e[1])}
        if e[0] in ('fadd', 'fsub', 'add', 'sub'): return add(self.tree(e[1]), self.tree(e[2]), 1 if e[0] in ('fadd', 'add') else -1)
        if e[0] in ('fmul', 'mul'): return mul(self.tree(e[1]), self.tree(e[2]))
        if e[0] in ('sext', 'zext', 'sitofp'): return self.tree(e[1])
        return {(('o', repr(e)),): 1.0}

def strip(e):
    while e[0] in ('sext', 'zext'): e = e[1]
    return e
def add(a, b, s):
    r = dict(a)
    for m, c in b.items(): r[m] = r.get(m, 0.0) + s * c
    return {m: c for m, c in r.items() if abs(c) > 1e-14}
def mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            x = tuple(sorted(m + n, key=repr)); r[x] = r.get(x, 0.0) + c * d
    return {m: c for m, c in r.items() if abs(c) > 1e-14}

def truth(p, s):
    """answer of a comparison whose left side minus right side has sign s"""
    q = p.lstrip('su') if p in ('slt', 'sgt', 'sle', 'sge') else p[1:] if p not in ('eq', 'ne') else p
    if p[0] in 'ou' and p not in ('ord', 'uno'): q = p[1:]
    return {'lt': s < 0, 'le': s < 0, 'gt': s > 0, 'ge': s > 0, 'eq': False, 'ne': True}.get(q)

def gate(L, key, way):
    """(quantity - limit as a polynomial, answer of the comparison beyond the limit) or None"""
    if key[0] != 'cmp': return None
    p = add(L.tree(key[2]), L.tree(key[3]), -1)
    c = p.get((('T',),))
    if c is None or abs(c) != 1.0 or any(('T',) in m and len(m) > 1 for m in p): return None
    q = {m: x * -c for m, x in p.items()}                                # quantity - limit
    rest = [m for m in q if m not in ((), (('T',),))]
    if not rest: return None
    if not any(abs(q[m]) == 1.0 for m in rest): return None
    # beyond the limit: quantity - limit < 0 (way 1) or > 0 (way -1); sign of left - right
    s = -way if c < 0 else way
    return q, truth(key[1], s)

def inserts(F):
    out = []
    for i in F.fn.all():
        if i.op in ('call', 'invoke'):
            q = F.fn.call(i)['q']; c = F.fn.call(i)
            if re.match(r'OsiCuts::insert', q) and not re.search(r'OsiColCut', c.get('dem', '') or q) and not empty(F, i):
                if any(F.root(o) is not None for o, x in F.val(i.a[0])): out.append(i)
    return out

def arrays(F, ins):
    """objects handed over as indices or elements of the inserted cuts"""
    f = F.fn; out = set()
    for i in f.all():
        if i.op in ('call', 'invoke') and re.search(r'OsiRowCut::setRow$', f.call(i)['q']) and len(i.a) >= 4 and not isconst(i.a[1]):
            for a in i.a[2:4]: out |= {o for o, x in F.val(a) if o[0] in ('new', 'alloca', 'call')}
    return out

def derives(F, v, objs, d=0):
    """does the value come from an element of the same array?"""
    if not isinstance(v, int) or d > 6: return False
    i = F.fn.ins[v]
    if i.op == 'load':
        if any(o in objs for o, x in F.val(i.a[0])): return True
        return derives(F, i.a[0], objs, d + 1)
    if i.op == 'getelementptr': return derives(F, i.d['b'], objs, d + 1) or any(derives(F, x, objs, d + 1) for x, _ in i.d['v'])
    if i.op in ('sext', 'zext', 'fmul', 'fdiv', 'fadd', 'fsub', 'fneg', 'add', 'sub'): return any(derives(F, x, objs, d + 1) for x in i.a)
    return False

def fills(F, objs):
    out = []
    for i in F.fn.all():
        if i.op == 'store' and not isconst(i.a[0]):
            t = {o for o, x in F.val(i.a[1])} & objs
            if t and not derives(F, i.a[0], t): out.append(i)
    return out

def cutof(prog, F, P, L, i):
    """violation of the inserted cut as a polynomial, from the events that reach the insertion; None if unknown"""
    f = F.fn
    ob = {o for o, x in F.val(i.a[1])}
    if len(ob) != 1: return None
    o, = ob
    ev = {'row': [], 'lb': [], 'ub': []}
    for j in f.all():
        if j.op not in ('call', 'invoke'): continue
        q = f.call(j)['q']; m = re.search(r'OsiRowCut::(setRow|setLb|setUb)$', q)
        if m and any(oo == o for oo, x in F.val(j.a[0])): ev['row' if m.group(1) == 'setRow' else m.group(1)[3:].lower()].append(j)
    r = reaching(f, ev['row'], i); lb = reaching(f, ev['lb'], i); ub = reaching(f, ev['ub'], i)
    if r is None or not isconst(r.a[1]) or not 0 < cval(r.a[1]) <= 8: return None
    tot = {}
    for k in range(cval(r.a[1])):
        c = cell(F, f, r.a[2], 4 * k, r); e = cell(F, f, r.a[3], 8 * k, r)
        if c is None or e is None: return None
        tot = add(tot, mul(L.poly(e), {(('getColSolution', strip(P.expr(c))),): 1.0}), 1)
    def fin(b):
        if b is None: return None
        p = L.poly(b.a[1])
        return None if list(p) == [()] and abs(p[()]) >= 1e30 else p
    l = fin(lb) if ev['lb'] else None; u = fin(ub) if ev['ub'] else None
    if ev['lb'] and lb is None or ev['ub'] and ub is None: return None
    if (l is None) == (u is None): return None
    return add(l, tot, -1) if l is not None else add(tot, u, -1)

def reaching(f, cand, i):
    """the one instruction of cand whose effect reaches i, or None"""
    same = [j for j in cand if j.blk == i.blk and j.pos < i.pos]
    if same: return max(same, key=lambda j: j.pos)
    last = {}
    for j in cand:
        if j.blk not in last or last[j.blk].pos < j.pos: last[j.blk] = j
    seen = set(); st = list(f.pred[i.blk]); out = []
    if not st: return None
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b)
        if b in last: out.append(last[b]); continue
        if b == 0: return None
        st += f.pred[b]
    out = {j.id: j for j in out}
    return next(iter(out.values())) if len(out) == 1 else None

def cell(F, f, arr, off, at):
    t = list(F.val(arr))
    if len(t) != 1 or t[0][1] == '*': return None
    o, b = t[0]
    st = []
    for j in f.all():
        if j.op == 'store':
            v = list(F.val(j.a[1]))
            if any(oo == o and x == '*' for oo, x in v): return None
            if any(oo == o and x == b + off for oo, x in v):
                if len(v) > 1: return None
                st.append(j)
    j = reaching(f, st, at)
    return None if j is None else j.a[0]

def run(prog, r):
    R = [(n, g) for n, g in entries(prog)]
    stored = [(n, 'CglTreeProbingInfo') for n, f in prog.fns.items() if f.qname == 'CglTreeProbingInfo::generateCuts']
    todo = {rt_(n, g): (n, g) for n, g in R + stored}
    prog.inlined(list(todo))
    # recursive helpers stay calls: they are roots of their own
    extra = []
    for n, g in R:
        if g not in {l[0] for l in LIMITS}: continue
        F = flow(prog, n, g)
        for i in F.fn.all():
            if i.op in ('call', 'invoke'):
                m = F.fn.call(i).get('m')
                if m in prog.fns and prog.fns[m].cls and prog.classes.get(prog.fns[m].cls, {}).get('repo') and (m, g) not in R + extra and re.search('OsiCuts', prog.fns[m].dem): extra.append((m, g))
    prog.inlined([rt_(n, g) for n, g in extra])
    for cls, q, way, starts in LIMITS:
        toff = limit(prog, cls, q)
        for n, g in R + extra:
            if g != cls: continue
            F = flow(prog, n, g); f = F.fn; P = Paths(f); L = Lin(prog, F, P, toff)
            ins = inserts(F)
            if not ins: continue
            cache = {}
            def decide(k):
                if k not in cache:
                    x = gate(L, k, way); cache[k] = None if x is None else x[1]
                return cache[k]
            W = Walk(F, f, P, {}, (), decide=decide, flags=True)
            sl = {}
            if way == -1:
                for b in range(len(f.blocks)):
                    for s_, k, t in P.edges(b):
                        if k is not None and gate(L, k, way) is not None:
                            e = slack(F, f, P, L, k, b); sl[k] = e if sl.get(k) is None or e is None else min(sl[k], e)
            for k in list(sl): sl[('cmp', INV[k[1]]) + k[2:]] = sl[k]
            def after(k): return None if sl.get(k) is not None and sl[k] < 0 else decide(k)
            def before(k): return None if sl.get(k) is not None and sl[k] < 1 else decide(k)
            if way == -1: W = Walk(F, f, P, {}, (), decide=after, flags=True)
            A = arrays(F, ins); fl = fills(F, A) if 'fill' in starts else []
            RS = resets(F, f) if fl else set()
            S = []
            if 'entry' in starts: S.append((0, None, 'the entry'))
            if 'insert' in starts: S += [(i.blk, i, 'an earlier insertion (%s)' % i.loc()) for i in ins]
            if way == -1: fl = [i for i in fl if i.blk == 0 or plainreach(P, f, 0, i.blk, before, set())]
            S += [(i.blk, i, 'the entry put into the cut at %s' % i.loc()) for i in fl]
            for i in ins:
                for b0, i0, how in S:
                    what = '%s %s: insertion at %s from %s' % (cls, q, i.loc(), how)
                    if i0 is not None and b0 == i.blk and i0.pos < i.pos: p = [b0]
                    elif not plainreach(P, f, b0, i.blk, after, RS - {b0} if how.startswith('the entry put') else set()): p = None
                    else: p = W.run(i.blk, RS - {b0} if how.startswith('the entry put') else (), start=b0)
                    if p is None: r.ok('limit', what)
                    elif p == 'cap': r.undecided('limit', what)
                    else: r.bad('limit', '%s:%s:%s' % (cls, q, site(prog, i, f)), '%s: %s can add a cut without the required comparison with the limit behind %s::%s, on a path from %s: lines %s' % (i.loc(), site(prog, i, f), cls, q, how, lines(f, p)))
            if way == 1 and 'fill' in starts:
                for i in ins: bounds(prog, r, F, P, L, i, cls, q, way)
    # cuts with a constant number of entries: what was tested is the violation of what is added
    for n, g in [x for x in R if x[1] == 'CglStored'] + stored:
        F = flow(prog, n, g); f = F.fn; P = Paths(f)
        L = Lin(prog, F, P, limit(prog, 'CglStored', 'getRequiredViolation') if g == 'CglStored' else None)
        for i in inserts(F):
            what = '%s %s' % (g, i.loc())
            V = cutof(prog, F, P, L, i)
            if V is None:
                x = whole(F, P, L, f, i)
                if x is None: r.undecided('same', what)
                elif x: r.ok('same', what)
                else: r.bad('same', '%s:%s' % (g, site(prog, i, f)), '%s: %s adds another cut than the one whose violation it tested' % (i.loc(), site(prog, i, f)))
                continue
            sol = [m for m in V if any(y[0] == 'getColSolution' for y in m)]
            good = None; seen = []
            for k, t in P.guards(i.blk):
                if k[0] != 'cmp': continue
                G = add(L.tree(k[2]), L.tree(k[3]), -1)
                if not any(y[0] == 'getColSolution' for m in G for y in m): continue
                s = next((s for s in (1, -1) if truth(k[1], s) == t and truth(k[1], -s) != t), None)
                if s is None: continue
                G = {m: c * s for m, c in G.items()}                    # known to be >= 0
                seen.append(G)
                D = add(V, G, -1)                                       # violation - what is known
                c0 = D.get((), 0.0); rest = {m: c for m, c in D.items() if m != ()}
                if (not rest and -1e-12 <= c0) and L.toff is None or rest == {(('T',),): 1.0} and abs(c0) < 1e-12: good = True
            if good: r.ok('same', what)
            elif not seen or any(y[0] in ('v', 'o') for G in seen + [V] for m in G for y in m if not opaque_ok(y)): r.undecided('same', what)
            else: r.bad('same', '%s:%s' % (g, site(prog, i, f)), '%s: %s adds a cut whose violation is not the quantity that was compared with the required violation' % (i.loc(), site(prog, i, f)))
    # switches of CglClique
    for n, g in R:
        if g not in ('CglClique', 'CglFakeClique'): continue
        F = flow(prog, n, g); f = F.fn
        if not f.qname.endswith('generateCuts'): continue
        lay = {x: o for o, s, x, t, w in prog.layout(g)}
        try: sw = {'row': lay['do_row_clique'], 'star': lay['do_star_clique']}
        except KeyError: raise AnalysisBroken('switches of CglClique not found')
        sets = {'row': [o for x, o in lay.items() if x.startswith('rcl_')], 'star': [o for x, o in lay.items() if x.startswith('scl_')]}
        for off in (('row',), ('star',), ('row', 'star')):
            sel = {}
            for i in f.all():
                if i.op == 'load':
                    t = F.val(i.a[0])
                    if t and all(o == ('arg', 0) and x in [sw[z] for z in off] for o, x in t): sel[i.id] = const(0)
            S = Sccp(f, lambda i: sel.get(i.id))
            if len(off) == 2:
                for i in inserts(F):
                    if i.blk in S.blk and g == 'CglClique': r.bad('switch', '%s:%s' % (g, site(prog, i, f)), '%s: %s::generateCuts adds cuts although both methods are switched off' % (i.loc(), g))
                    else: r.ok('switch', '%s both off: %s' % (g, i.loc()))
            else:
                for i in f.all():
                    if i.op != 'load': continue
                    t = F.val(i.a[0])
                    if t and all(o == ('arg', 0) and x in sets[off[0]] for o, x in t):
                        if i.blk in S.blk: r.bad('switch', '%s:%s:%s' % (g, off[0], prog.field(g, next(iter(t))[1])), '%s: %s::generateCuts uses the settings of the %s method although it is switched off' % (i.loc(), g, off[0]))
                        else: r.ok('switch', '%s %s off: %s' % (g, off[0], i.loc()))
    r.need('limit', 20); r.need('same', 8); r.need('switch', 4)

def plainreach(P, f, b0, b1, decide, stop):
    seen = set(); st = [b0]
    while st:
        b = st.pop()
        for s, k, t in P.edges(b):
            if k is not None:
                q = decide(k)
                if q is not None and q != t: continue
            if s == b1: return True
            if s not in seen and s not in stop: seen.add(s); st.append(s)
    return False

def resets(F, f):
    """blocks in which the number of entries of a cut starts again"""
    out = set()
    for i in f.all():
        if not (i.op in ('call', 'invoke') and re.search(r'OsiRowCut::setRow$', f.call(i)['q']) and len(i.a) >= 4 and isinstance(i.a[1], int)): continue
        seen = set(); st = [i.a[1]]
        while st:
            v = st.pop()
            if not isinstance(v, int) or v in seen: continue
            seen.add(v); j = f.ins[v]
            if j.op == 'phi':
                for x, b in j.d['in']:
                    if isconst(x): out.add(b)
                    else: st.append(x)
            elif j.op in ('add', 'sub', 'sext', 'zext', 'trunc'): st += [x for x in j.a]
            elif j.op == 'load':
                t = {o for o, x in F.val(j.a[0])}
                for k in f.all():
                    if k.op == 'store' and t & {o for o, x in F.val(k.a[1])} and all(o[0] == 'alloca' for o in t):
                        if isconst(k.a[0]): out.add(k.blk)
                        else: st.append(k.a[0])
    return out

def near(P, f, b0, test):
    """branch keys for which test holds that lie last on the paths to b0"""
    out = {}; seen = {b0}; st = [b0]
    while st:
        b = st.pop()
        for p in f.pred[b]:
            if p in seen: continue
            seen.add(p)
            ks = [k for s, k, t in P.edges(p) if k is not None and test(k)]
            if ks: out[ks[0]] = p
            else: st.append(p)
    return out

def init(L, m):
    """start value of a sum"""
    if len(m) == 1 and m[0][0] == 'v' and L.f.ins[m[0][1]].op == 'phi':
        s = {float(v['f']) for v, _ in L.f.ins[m[0][1]].d['in'] if isinstance(v, dict) and 'f' in v}
        if len(s) == 1: return s.pop()
    return 0.0

def bounds(prog, r, F, P, L, i, cls, q, way):
    """the quantity compared with the limit is a sum minus the upper bound, or the lower bound minus a sum"""
    f = F.fn
    ob = {o for o, x in F.val(i.a[1])}
    what = '%s %s' % (cls, i.loc())
    if len(ob) != 1: return r.undecided('bound', what)
    ev = {'lb': [], 'ub': []}
    for j in f.all():
        if j.op in ('call', 'invoke'):
            m = re.search(r'OsiRowCut::set(Lb|Ub)$', f.call(j)['q'])
            if m and any(oo in ob for oo, x in F.val(j.a[0])): ev[m.group(1).lower()].append(j)
    lb, ub = reaching(f, ev['lb'], i), reaching(f, ev['ub'], i)
    def fin(e, b):
        if not e: return None
        if b is None: return 'several'
        p = L.poly(b.a[1])
        return None if list(p) == [()] and abs(p[()]) >= 1e30 else p
    l, u = fin(ev['lb'], lb), fin(ev['ub'], ub)
    if 'several' in (l, u) or (l is None) == (u is None): return r.undecided('bound', what)
    G = near(P, f, i.blk, lambda k: gate(L, k, way) is not None)
    alts = [(l, u)]
    if l is None or u is None:
        c = consts(f, (ub if u is not None else lb).a[1])
        if c: alts = [(None, {(): x} if x else {}) if u is not None else ({(): x} if x else {}, None) for x in sorted(c)]
    for k in G:
      for l, u in alts:
        Q = dict(gate(L, k, way)[0]); Q.pop((('T',),), None)
        S = add(Q, u, 1) if u is not None else add(l, Q, -1)
        B = u if u is not None else l
        rest = [m for m in S if m != ()]
        if len(rest) == 1 and S[rest[0]] == 1.0 and len(rest[0]) == 1:
            c = S.get((), 0.0) + init(L, rest[0])
            if abs(c) < 1e-9: r.ok('bound', what); continue
        elif not ({m for m in B if m != ()} <= set(Q) and len([m for m in Q if m != () and m not in B]) == 1): r.undecided('bound', what); continue
        r.bad('bound', '%s:%s:%s' % (cls, q, site(prog, i, f)), '%s: %s adds a cut whose bound is not the one used in the comparison with the limit behind %s::%s (%s)' % (i.loc(), site(prog, i, f), cls, q, f.blocks[G[k]][-1].loc()))

def consts(f, v):
    """constants a value is chosen from, or None"""
    out = set(); seen = set(); st = [v]; ch = False
    while st:
        x = st.pop()
        if isinstance(x, dict) and 'f' in x: out.add(float(x['f'])); continue
        if not isinstance(x, int): return None
        if x in seen: continue
        seen.add(x); i = f.ins[x]
        if i.op == 'phi': st += [y for y, _ in i.d['in']]
        elif i.op == 'select': st += list(i.a[1:3])
        else: return None
    return out

def slack(F, f, P, L, key, blk):
    """e such that the comparison turns down counts above limit - e; None if unknown"""
    x = gate(L, key, -1)
    if x is None or x[1] is None: return None
    q = dict(x[0]); q.pop((('T',),), None)
    d = q.pop((), 0.0)
    if len(q) != 1: return None
    (m, c), = q.items()
    if c != 1.0 or len(m) != 1 or m[0][0] != 'v': return None
    j = f.ins[m[0][1]]; cur = 0.0
    after = lambda k: (k.blk == j.blk and k.pos > j.pos or k.blk != j.blk and f.dominates(j.blk, k.blk)) and f.dominates(k.blk, blk)
    vals = []
    if j.op == 'load':
        t = F.val(j.a[0])
        vals = [k.a[0] for k in f.all() if k.op == 'store' and after(k) and F.val(k.a[1]) == t]
    elif j.op == 'phi':
        vals = [k.id for k in f.all() if k.op in ('add', 'sub') and after(k) and j.id in k.a]
    else: return None
    for v in vals:
        p = add(L.poly(v), {m: 1.0}, -1)
        if set(p) <= {()}: cur = max(cur, p.get((), 0.0))
        else: return None
    t = x[1]; p = key[1]                                                 # t: answer that turns the count down
    strict = (p in ('sgt', 'slt', 'ugt', 'ult')) == t if p not in ('eq', 'ne') else False
    return d - cur + (0 if strict else 1)

def opaque_ok(y): return False

def whole(F, P, L, f, i):
    """a stored cut inserted as it is: the guard tests its own violation"""
    res = None
    for k, t in P.guards(i.blk):
        for l in P.leaves(k):
            j = f.ins[l]
            if j.op in ('call', 'invoke') and re.search(r'OsiRowCut::violated$', f.call(j)['q']):
                same = P.expr(j.a[0]) == P.expr(i.a[1])
                sol = L.src(j.a[1]) == 'getColSolution'
                res = bool(res) or same and sol
    return res

def lines(f, p):
    out = []
    for b in p:
        for i in f.blocks[b]:
            l = i.loc().rsplit(':', 1)[-1]
            if l.isdigit() and (not out or out[-1] != l): out.append(l)
            break
    return ' '.join(out[-12:])
