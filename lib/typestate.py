"""Path-wise life of every heap block that a function allocates.  Each allocation site is followed from the
allocation along all paths (conditions that are tested again are kept consistent), with the set of SSA
values and memory slots that hold the block."""
import re
from model import isconst, cval
from paths import Paths, SWP
from flow import const_pointee

NEW = {'operator new': 'new', 'operator new[]': 'new[]', 'malloc': 'malloc', 'calloc': 'malloc', 'realloc': 'malloc', 'strdup': 'malloc'}
DEL = {'operator delete': 'new', 'operator delete[]': 'new[]', 'free': 'malloc'}
FRESH = re.compile(r'(::clone|::getWarmStart|::getEmptyWarmStart|::getPointerToWarmStart)$|^CoinCopyOfArray')
OWNER = re.compile(r'(assign|insert|push_back|addCut|passIn|append|emplace|add)', re.I)
# algorithms of the standard library neither keep nor release what their arguments point to
ALGO = re.compile(r'std::(fill|copy|move_backward|sort|stable_sort|nth_element|partial_sort|count|find|search|max_element|min_element|minmax|accumulate|partial_sum|iota|inner_product|'
                  r'equal|lower_bound|upper_bound|reverse|rotate|unique|for_each|transform|random_shuffle|shuffle|generate|replace|is_sorted|any_of|all_of|none_of|make_heap|push_heap|'
                  r'pop_heap|sort_heap|merge|set_intersection|set_union|set_difference|set_symmetric_difference|includes|binary_search|remove|partition|lexicographical_compare|mismatch|'
                  r'adjacent_find|distance|adjacent_difference)\w*(<.*)?$')
NAMES = {'new': 'new', 'new[]': 'new[]', 'malloc': 'malloc', 'obj': 'new'}

def kind(q):
    if q in NEW: return NEW[q]
    if FRESH.search(q): return 'new[]' if q.startswith('CoinCopy') else 'obj'
    return None

class Life:
    def __init__(self, prog, F, cap=60000, owned=()):
        self.owned = set(owned); self.prog = prog; self.F = F; self.fn = F.fn; self.P = Paths(F.fn); self.cap = cap
        self.site = {}; self.free = {}
        for i in self.fn.all():
            if i.op not in ('call', 'invoke'): continue
            c = self.fn.call(i); q = c['q']
            if kind(q): self.site[i.id] = kind(q)
            if q in DEL: self.free[i.id] = (DEL[q], i.a[0])
            elif c.get('dtor') and c.get('deleting'): self.free[i.id] = ('obj', i.a[0])
        self.looping = {b for b in range(len(self.fn.blocks)) if b in self.P.reach(b)}
        self._slot = {}
        self._stable()
        cnt = {}
        for b in range(len(self.fn.blocks)):
            for s, k, t in self.P.edges(b):
                if k is not None: cnt.setdefault(k, set()).add(b)
        self._memory()
        self.multi = {k: bs for k, bs in cnt.items() if len(bs) > 1}
        self.leaves = {k: self.P.leaves(k) for k in self.multi}
        self.kill = {}
        for k, ls in self.leaves.items():
            for l in ls: self.kill.setdefault(self.fn.ins[l].blk, set()).add(k)
        self.edgec = {b: self.P.edges(b) for b in range(len(self.fn.blocks))}

        self._liveness(); self._tracked()

    def _stores(self):
        if hasattr(self, '_st'): return self._st
        F = self.F; st = {}; wide = set()
        for i in self.fn.all():
            if i.op == 'store':
                for o, x in F.val(i.a[1]): st.setdefault((o, x), []).append(i)
            elif i.op in ('call', 'invoke'):
                c, recv, args = F.callinfo(i); q = c['q']
                if q.startswith('llvm.mem') or q in ('memcpy', 'memmove', 'memset'):
                    for o, x in F.val(i.a[0]): wide.add(o)
                elif not q.startswith('llvm.') and q not in DEL and q not in NEW:
                    for a, t in args + ([(recv, None)] if recv is not None and not c['const'] else []):
                        if t and const_pointee(t): continue
                        for o, x in F.val(a): wide.add(o)
        self._st = (st, wide); return self._st
    def _stable(self):
        """loads of a slot that the function never writes are one value"""
        st, wide = self._stores(); F = self.F
        for i in self.fn.all():
            if i.op != 'load': continue
            t = F.val(i.a[0])
            if len(t) != 1: continue
            (o, x), = t
            if x == '*' or o[0] not in ('arg',) : continue
            if F.islib(o) or o in wide and o != ('arg', 0): continue
            if (o, x) in st or (o, '*') in st: continue
            if o == ('arg', 0) and self._sub(o, x): continue
            self.P._expr[i.id] = ('ld', o, x)
    def _sub(self, o, x):
        return False
    def _memory(self):
        """slots of local objects that only ever receive constants"""
        st, wide = self._stores(); self.M = {}
        for (o, x), ss in st.items():
            if x == '*' or o[0] not in ('new', 'alloca') or o in wide or (o, '*') in st: continue
            if all(isconst(i.a[0]) and isinstance(cval(i.a[0]), int) for i in ss): self.M[(o, x)] = ss
        self.ML = {}; self.MS = {}
        for i in self.fn.all():
            if i.op == 'load' and i.ty != 'ptr':
                t = self.F.val(i.a[0])
                if len(t) == 1 and tuple(t)[0] in self.M: self.ML[i.id] = tuple(t)[0]
        for sl in set(self.ML.values()):
            for i in self.M[sl]: self.MS[i.id] = (sl, cval(i.a[0]), len(self.F.val(i.a[1])) == 1)
        self.MB = {}
        self.MZ = {}
        for sl in set(self.ML.values()):
            if sl[0][0] == 'new' and self.fn.ins[sl[0][1]].d.get('callee') == 'calloc': self.MZ.setdefault(sl[0][1], []).append(sl)
        for i in list(self.ML) + list(self.MS) + list(self.MZ): self.MB.setdefault(self.fn.ins[i].blk, []).append(self.fn.ins[i])
        for b in self.MB.values(): b.sort(key=lambda i: i.pos)
    def memat(self, ins):
        """must-constant memory flags just after instruction ins"""
        fn = self.fn
        if not hasattr(self, '_min'):
            self._min = {0: {}}; wl = [0]
            def tr(b, e, upto=None):
                e = dict(e)
                for i in self.MB.get(b, ()):
                    if upto is not None and i.pos > upto: break
                    if i.id in self.MZ:
                        for sl in self.MZ[i.id]: e[sl] = 0
                    elif i.id in self.MS:
                        sl, c, exact = self.MS[i.id]
                        if exact: e[sl] = c
                        elif e.get(sl) != c: e.pop(sl, None)
                return e
            self._tr = tr
            while wl:
                b = wl.pop(); o = tr(b, self._min[b])
                for t in fn.succ[b]:
                    if t not in self._min: n = o
                    else: n = {k_: v for k_, v in self._min[t].items() if o.get(k_) == v}
                    if t not in self._min or n != self._min[t]: self._min[t] = n; wl.append(t)
        return self._tr(ins.blk, self._min.get(ins.blk, {}), ins.pos)
    def _liveness(self):
        fn = self.fn; n = len(fn.blocks)
        gen = [0] * n; kil = [0] * n; phiuse = [0] * n
        def ops(i):
            d = i.d
            for v in d.get('a', []): yield v
            if 'b' in d: yield d['b']
            for v in d.get('v', []): yield v[0]
            if 'cond' in d: yield d['cond']
            if 'fp' in d: yield d['fp']
        for b, blk in enumerate(fn.blocks):
            for i in blk:
                if i.op == 'phi':
                    for x, pb in i.d['in']:
                        if isinstance(x, int): phiuse[pb] |= 1 << x
                else:
                    for v in ops(i):
                        if isinstance(v, int) and not (kil[b] >> v) & 1: gen[b] |= 1 << v
                kil[b] |= 1 << i.id
        livein = [0] * n; out = [0] * n
        order = fn.rpo()[::-1]; ch = True
        while ch:
            ch = False
            for b in order:
                o = phiuse[b]
                for s_ in fn.succ[b]: o |= livein[s_]
                li = gen[b] | (o & ~kil[b])
                if o != out[b] or li != livein[b]: out[b] = o; livein[b] = li; ch = True
        self.liveout = out
    def _tracked(self):
        """integer phis that only take constants (flags, cleanup destinations) or count a few steps"""
        fn = self.fn; T = {}
        for i in fn.all():
            if i.op == 'phi' and str(i.ty) in ('i1', 'i8', 'i32', 'i64'): T[i.id] = i
        def okv(x, me):
            if isconst(x): return True
            if not isinstance(x, int): return False
            if x in T: return True
            j = fn.ins[x]
            if j.op in ('zext', 'sext', 'trunc'): return okv(j.a[0], me)
            if j.op == 'add' and len(j.a) == 2 and j.a[0] == me and isconst(j.a[1]): return self._bounded(me, x)
            return False
        ch = True
        while ch:
            ch = False
            for k_ in list(T):
                if not all(okv(x, k_) for x, b in T[k_].d['in']): del T[k_]; ch = True
        # those that decide a branch, directly or through other tracked phis
        use = set()
        def mark(v, d=0):
            if not isinstance(v, int) or d > 6: return
            if v in T:
                if v in use: return
                use.add(v)
                for x, b in T[v].d['in']: mark(x, d + 1)
                return
            j = fn.ins[v]
            if j.op in ('icmp', 'xor', 'and', 'or', 'zext', 'sext', 'trunc', 'add', 'select'):
                for x in j.a: mark(x, d + 1)
        for blk in fn.blocks:
            if blk and 'cond' in blk[-1].d: mark(blk[-1].d['cond'])
        self.T = use
        self.TA = {}
        for v in use:
            for x, b in T[v].d['in']:
                if isinstance(x, int) and x not in T:
                    self.TA.setdefault(fn.ins[x].blk, []).append(fn.ins[x])
        self.phis = [[i for i in blk if i.op == 'phi' and i.id in use] for blk in fn.blocks]
    def _bounded(self, phi, nxt):
        for v in (phi, nxt):
            for u in self.fn.uses().get(v, []):
                if u.op == 'icmp' and any(isconst(a) and isinstance(cval(a), int) and abs(cval(a)) <= 4 for a in u.a) and u.d['p'] not in ('eq', 'ne', 'sgt', 'ugt'): return True
        return False
    def ceval(self, v, env, d=0):
        if isconst(v):
            c = cval(v); return c if isinstance(c, int) else None
        if not isinstance(v, int) or d > 6: return None
        if v in env: return env[v]
        if v in self.T or v in self.ML: return None
        j = self.fn.ins[v]
        if j.op in ('zext', 'sext', 'trunc', 'freeze'):
            x = self.ceval(j.a[0], env, d + 1)
            if x is not None and j.op == 'zext' and str(self.fn.ins[j.a[0]].ty if isinstance(j.a[0], int) else '') == 'i1': x &= 1
            return x
        if j.op in ('icmp', 'xor', 'and', 'or', 'add'):
            a = [self.ceval(x, env, d + 1) for x in j.a]
            if j.op == 'and' and 0 in a: return 0
            if None in a: return None
            x, y = a
            if j.op == 'icmp':
                p = j.d['p']
                if p in ('eq', 'ne'): return int((x == y) == (p == 'eq'))
                return int({'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p[1:]])
            return {'xor': x ^ y, 'and': x & y, 'or': x | y, 'add': x + y}[j.op]
        return None
    def targets(self, b, env):
        """successors the terminator can take under env, or None for all"""
        t = self.fn.blocks[b][-1]
        if 'cond' not in t.d: return None
        c = self.ceval(t.d['cond'], env)
        if c is None: return None
        if t.op == 'br':
            return {t.d['t'][0 if c & 1 else 1]} if len(t.d['t']) == 2 else None
        if t.op == 'switch':
            for x, s_ in t.d['cases']:
                if x == c: return {s_}
            return {t.d['def']}
        return None

    def slot(self, v):
        """exact slot (object, offset) an address names, 'maybe' if it may name several"""
        key = v if isinstance(v, int) else repr(v)
        if key in self._slot: return self._slot[key]
        s = self.F.val(v); r = 'maybe'
        if len(s) == 1:
            (o, x), = s
            if x != '*' and (o[0] in ('alloca', 'glob', 'new') or o == ('arg', 0)): r = (o, x)
        elif not s: r = None
        self._slot[key] = r
        return r
    def among(self, sl, v):
        """may the address v name the slot sl?"""
        return any(o == sl[0] and (x == '*' or sl[1] == '*' or x == sl[1]) for o, x in self.F.val(v))
    def visible(self, o):
        return self.F.root(o) is not None

    def objs(self, A):
        """names of a block: an allocation (instruction number) or what a member of the object points to on entry"""
        return {('new', A), ('lib', A)} if isinstance(A, int) else {A}
    def kindof(self, A):
        return self.site[A] if isinstance(A, int) else self.memkind[A]
    memkind = {}
    def deallocators(self, A):
        ob = self.objs(A)
        return [f for f, (k, v) in self.free.items() if any(o in ob for o, x in self.F.val(v))]

    def relevant(self, A):
        """conditions that matter for the block A: tested where it is allocated or released"""
        fs = self.deallocators(A)
        out = set()
        fb = [self.fn.ins[f].blk for f in fs] + ([self.fn.ins[A].blk] if isinstance(A, int) else [])
        g = {}
        for b in fb:
            for k, t in self.P.guards(b): g.setdefault(k, set()).add(b)
        for k in g:
            if k in self.multi or any(k2 == k for k2 in self.multi): out.add(k)
        return out

    def follow(self, A):
        """findings [(kind, instruction, text)] and whether everything was followed"""
        fn = self.fn; ins = fn.ins[A] if isinstance(A, int) else None; res = []
        keys = self.relevant(A)
        blocks, useblk, interesting = self.slice(A)
        canuse = self.backreach(interesting)
        def live(b, h):
            lo = self.liveout[b]
            return frozenset((a, o, x) for (a, o), x in h.items() if a == 's' or (lo >> o) & 1)
        if ins is None: st = [(0, 0, None, 'L', frozenset({('s', (A[1], A[2]), 0)}), frozenset(), frozenset())]
        else:
          g0 = dict((k, t) for k, t in self.P.guards(ins.blk) if k in keys)
          m0 = frozenset((('m', sl), c) for sl, c in self.memat(ins).items())
          # a C-style request is for more than nothing, on this path
          cnt = set()
          if ins.d.get('callee') in ('calloc', 'malloc'):
              for v in [v for x in self.site if fn.ins[x].d.get('callee') in ('calloc', 'malloc') and fn.dominates(fn.ins[x].blk, ins.blk) for v in fn.ins[x].a]:
                  while isinstance(v, int):
                      cnt.add(v); j = fn.ins[v]
                      if j.op in ('sext', 'zext') or j.op in ('mul', 'shl') and isconst(j.a[1]): v = j.a[0]
                      else: break
          st = [(ins.blk, ins.pos + 1, None, 'L', frozenset({('v', A, 0)} | {('z', v, 0) for v in cnt}), frozenset(g0.items()), e | m0) for e in self.entryenvs(ins.blk)]
        seen = set(st); self.parent = parent = {x: None for x in st}
        lost = []
        while st:
            if len(seen) > self.cap: return res, 'too many states'
            cur = st.pop(); b, pos, pred, state, hold, facts, envs = cur; env = dict(envs); nres = len(res)
            H = dict(((h[0], h[1]), h[2]) for h in hold)
            blk = blocks[b]
            if state == 'F' and b not in canuse and pos == 0 and not any(kk == 's' and o[0] == ('arg', 0) and o[1] in self.owned for kk, o in H): continue
            outs = [(state, H, dict(facts))]
            dead = False
            if pos == 0:
                # phis in parallel
                newv = {}
                for i in blk:
                    if i.op != 'phi': break
                    for x, pb in i.d['in']:
                        if pb == pred:
                            o = self.holds(x, H)
                            newv[i.id] = o
                nz = {i.id: any(pb == pred and isinstance(x, int) and ('z', x) in H for x, pb in i.d['in']) for i in fn.blocks[b][:len(fn.blocks[b])] if i.op == 'phi'} if any(k_[0] == 'z' for k_ in H) else {}
                for k_, t_ in nz.items():
                    H.pop(('z', k_), None)
                    if t_: H[('z', k_)] = 0
                for k_, o in newv.items():
                    H.pop(('v', k_), None)
                    if o is not None: H[('v', k_)] = o
                if self.phis[b]:
                    old = dict(env)
                    for i in self.phis[b]:
                        x = [x for x, pb in i.d['in'] if pb == pred]
                        c = self.ceval(x[0], old) if x else None
                        if c is None: env.pop(i.id, None)
                        else: env[i.id] = c
                for kk in self.kill.get(b, ()): 
                    if kk in outs[0][2]:
                        # only if the leaf itself is (re)defined here
                        outs[0][2].pop(kk, None)
            for i in self.MB.get(b, ()):
                if i.pos < pos: continue
                if i.id in self.MZ:
                    for sl in self.MZ[i.id]: env[('m', sl)] = 0
                elif i.id in self.ML:
                    sl = self.ML[i.id]
                    if ('m', sl) in env: env[i.id] = env[('m', sl)]
                    else: env.pop(i.id, None)
                else:
                    sl, c, exact = self.MS[i.id]
                    if exact: env[('m', sl)] = c
                    else: env.pop(('m', sl), None)
            for i in self.TA.get(b, ()):
                if i.pos < pos: continue
                env.pop(i.id, None); c = self.ceval(i.id, env)
                if c is not None: env[i.id] = c
            for i in blk:
                if i.op == 'phi' or i.pos < pos: continue
                nxt = []
                for (s, h, fc) in outs:
                    r = self.step(A, i, s, h, res)
                    if r == 'stop': continue
                    if r == 'lost': lost.append(i); continue
                    nxt += [(s2, h2, fc) for s2, h2 in r]
                outs = nxt
                if not outs: break
            for s, h, fc in outs:
                t = fn.blocks[b][-1]
                if t.op == 'ret':
                    if s == 'L' and not self.kept(h, t): res.append(('leak', t, 'is still allocated at the return'))
                    if s == 'F':
                        for (kk, o), off in h.items():
                            if kk == 's' and o[0] == ('arg', 0) and off == 0 and o[1] in self.owned: res.append(('dangling', t, 'was released but member %s still points to it at the return' % (o[1],)))
                    continue
                es = self.edgec[b]; tg = self.targets(b, env); lo = self.liveout[b]
                e2 = frozenset((v, c) for v, c in env.items() if not isinstance(v, int) or (lo >> v) & 1)
                for (s2, k, tr) in es:
                    if tg is not None and s2 not in tg: continue
                    if k is not None:
                        d = self.decide(A, k, h)
                        if d is not None and d != tr: continue
                        if k in fc and fc[k] != tr: continue
                    f2 = dict(fc)
                    if k in keys: f2[k] = tr
                    n = (s2, 0, b if self.hasphi(s2, blocks) or any(k_[0] == 'z' for k_ in h) and fn.blocks[s2][0].op == 'phi' else None, s, live(b, h), frozenset(f2.items()), e2)
                    if n not in seen: seen.add(n); st.append(n); parent[n] = cur
            if self.debug and len(res) > nres: self.trace(cur, res[-1])
        if lost and not res: return res, 'stored in %s' % lost[0].loc()
        return res, ''
    def hasphi(self, b, blocks):
        return (bool(blocks[b]) and blocks[b][0].op == 'phi') or bool(self.phis[b])
    def backreach(self, bs):
        seen = set(bs); st = list(bs)
        while st:
            x = st.pop()
            for p in self.fn.pred[x]:
                if p not in seen: seen.add(p); st.append(p)
        return seen
    def slice(self, A):
        """instructions that can matter for block A, per basic block"""
        F = self.F; fn = self.fn; objs = self.objs(A)
        if not hasattr(self, 'byobj'):
            self.byobj = {}; self.slotobj = {}
            for v, t in F.pt.items():
                for o, x in t: self.byobj.setdefault(o, set()).add(v)
            for o, d in F.mem.items():
                for off, t in d.items():
                    for q, x in t: self.slotobj.setdefault(q, set()).add(o)
        vals = set(); slots = set()
        for o in objs: vals |= self.byobj.get(o, set()); slots |= self.slotobj.get(o, set())
        slotv = set()
        for o in slots: slotv |= self.byobj.get(o, set())
        rel = set(); use = {}
        U = fn.uses()
        for v in vals:
            for u in U.get(v, []):
                rel.add(u.id)
                if u.op == 'phi':
                    for x, pb in u.d['in']:
                        if x == v: use.setdefault(v, set()).add(u.blk)
                else: use.setdefault(v, set()).add(u.blk)
            rel.add(v)
        for v in slotv:
            for u in U.get(v, []):
                if u.op in ('load', 'store', 'call', 'invoke'): rel.add(u.id)
        if not isinstance(A, int): slots.add(A[1])
        for o in slots:
            if o[0] == 'glob' or o[0] == 'arg':
                for i in fn.all():
                    if i.op in ('load', 'store') and any(q[0] == o for q in F.val(i.a[-1])): rel.add(i.id)
        if isinstance(A, int): rel.add(A)
        blocks = [[] for _ in fn.blocks]; inter = set()
        for x in rel:
            i = fn.ins[x]; blocks[i.blk].append(i); inter.add(i.blk)
        for i in self.stops(): blocks[i.blk].append(i)
        for b in blocks: b.sort(key=lambda i: i.pos)
        return blocks, use, inter
    def stops(self):
        if not hasattr(self, '_stops'):
            self._stops = [i for i in self.fn.all() if i.op in ('call', 'invoke') and self.fn.call(i)['q'] in ('exit', 'abort', '__cxa_throw', '_exit', '__assert_fail')]
        return self._stops
    def entryenvs(self, b):
        """values that the step counters around block b can have there"""
        fn = self.fn; envs = [{}]
        idom = fn.dom(); chain = []; x = b
        while x in idom:
            chain.append(x)
            if idom[x] == x: break
            x = idom[x]
        for d in chain[::-1]:
            for i in self.phis[d]:
                vals = None
                ini = [x for x, pb in i.d['in'] if isconst(x)]
                stp = [fn.ins[x].a[1] for x, pb in i.d['in'] if isinstance(x, int) and fn.ins[x].op == 'add' and fn.ins[x].a[0] == i.id]
                if ini and len(ini) + len(stp) == len(i.d['in']) and d in self.P.reach(b):
                    vals = set()
                    for v0 in ini:
                        vals.add(cval(v0))
                        for sp in stp:
                            for q in range(1, 8): vals.add(cval(v0) + q * cval(sp))
                if vals: envs = [dict(e, **{str(i.id): v}) for e in envs for v in vals] if len(envs) * len(vals) <= 64 else envs
        envs = [{int(k_): v for k_, v in e.items()} for e in envs]
        def ok(e):
            for x in chain[1:]:
                tg = self.targets(x, e)
                if tg is None: continue
                # the branch of a dominator must be able to lead here
                if not any(t == b or fn.dominates(t, b) or b in self.P.reach(t) for t in tg): return False
                for t in fn.succ[x]:
                    if t not in tg and len(fn.succ[x]) > 1 and fn.pred[t] == [x] and fn.dominates(t, b) : return False
            return True
        return {frozenset((v, c) for v, c in e.items() if (self.liveout[b] >> v) & 1) for e in envs if ok(e)} or {frozenset()}
    debug = False
    def trace(self, cur, what):
        if self.debug is True: self.debug = 1
        L = []
        while cur is not None: L.append(cur); cur = self.parent[cur]
        print('TRACE', what)
        for c in L[::-1]: print('   block', c[0], self.fn.blocks[c[0]][0].loc(), c[3], sorted(c[4], key=str), dict(c[5]) if len(c[5]) < 5 else '', dict(c[6]))
        self.debug = False
    def holds(self, v, H):
        if isinstance(v, int): return H.get(('v', v))
        return None
    def kept(self, h, t):
        for (kk, o), off in h.items():
            if kk == 's' and self.visible(o[0]) and (o[0] != ('arg', 0) or o[1] in self.owned): return True
            if kk == 'v' and t.a and t.a[0] == o: return True
        return False
    def decide(self, A, k, h):
        """truth of a comparison of a holder with null"""
        if k[0] == 'cmp':
            for a, b, p in ((k[2], k[3], k[1]), (k[3], k[2], SWP[k[1]])):
                if a[0] == 'i' and ('z', a[1]) in h and b == ('c', 0) and p in ('eq', 'ne', 'sgt', 'sle', 'sge', 'slt'): return p in ('ne', 'sgt', 'sge')
        if k[0] == 'cmp' and k[1] in ('eq', 'ne'):
            for a, b in ((k[2], k[3]), (k[3], k[2])):
                if a == ('null',) and b[0] == 'i' and ('v', b[1]) in h: return k[1] == 'ne'
                # two holders of the block are equal
                if b[0] == 'i' and h.get(('v', b[1])) == 0 and (a[0] == 'ld' and h.get(('s', (a[1], a[2]))) == 0 or a[0] == 'i' and h.get(('v', a[1])) == 0): return k[1] == 'eq'
                # a block made here differs from every pointer that cannot point to it
                if b[0] == 'i' and ('v', b[1]) in h and (a[0] == 'i' and ('v', a[1]) not in h or a[0] == 'ld'):
                    t = self.F.val(a[1]) if a[0] == 'i' else self.F.content(a[1], a[2])
                    if t and not any(o in self.objs(A) for o, x in t): return k[1] == 'ne'
        return None
    def step(self, A, i, s, h, res):
        op = i.op; d = i.d
        if i.id == A:
            if d.get('callee') == 'realloc' and self.holds(i.a[0], h) is not None: return 'stop'
            if s == 'L' and not any(kk == 's' and self.visible(o[0]) for kk, o in h):
                res.append(('leak', i, 'is still allocated when the next one is made'))
            return 'stop'
        # a value defined again (loop): drop what it held
        if ('v', i.id) in h and op != 'phi':
            h = dict(h); h.pop(('v', i.id))
        if op in ('getelementptr',):
            o = self.holds(d['b'], h)
            if o is not None:
                h = dict(h); h[('v', i.id)] = o + d['o'] if o != '*' and d['o'] is not None and not d['v'] else '*'
            return [(s, h)]
        if op in ('bitcast', 'freeze', 'inttoptr', 'ptrtoint'):
            o = self.holds(i.a[0], h)
            if o is not None: h = dict(h); h[('v', i.id)] = o
            return [(s, h)]
        if op == 'select':
            a, b = self.holds(i.a[1], h), self.holds(i.a[2], h)
            if a is None and b is None: return [(s, h)]
            if a is not None and b is not None: h = dict(h); h[('v', i.id)] = a; return [(s, h)]
            h2 = dict(h); h2[('v', i.id)] = a if a is not None else b
            return [(s, h), (s, h2)]
        if op == 'load':
            if s == 'F' and self.holds(i.a[0], h) is not None: res.append(('use', i, 'is read after it was released')); return 'stop'
            if i.ty != 'ptr': return [(s, h)]
            sl = self.slot(i.a[0])
            if sl == 'maybe':
                if s == 'L' and any(kk == 's' and self.among(o, i.a[0]) for kk, o in h): return 'lost'
            elif sl is not None and ('s', sl) in h:
                h = dict(h); h[('v', i.id)] = h[('s', sl)]
            return [(s, h)]
        if op == 'store':
            if s == 'F' and self.holds(i.a[1], h) is not None: res.append(('use', i, 'is written after it was released')); return 'stop'
            o = self.holds(i.a[0], h); sl = self.slot(i.a[1])
            if o is not None:
                if s == 'F': return [(s, h)]
                if sl in ('maybe', None): return 'lost'
                h = dict(h); h[('s', sl)] = o; return [(s, h)]
            if sl not in ('maybe', None) and ('s', sl) in h:
                h = dict(h); h.pop(('s', sl))
            elif sl == 'maybe' and any(kk == 's' and self.among(oo, i.a[1]) for kk, oo in h):
                h2 = {k: v for k, v in h.items() if not (k[0] == 's' and self.among(k[1], i.a[1]))}
                return [(s, h), (s, h2)]
            return [(s, h)]
        if op in ('call', 'invoke'):
            c = self.fn.call(i); q = c['q']
            if i.id in self.free:
                k, v = self.free[i.id]; o = self.holds(v, h)
                if o is None: return [(s, h)]
                if s == 'F': res.append(('double', i, 'is released a second time')); return 'stop'
                ak = self.kindof(A)
                if o not in (0, '*'): res.append(('interior', i, 'is released through a pointer that is not its start'))
                elif k != ak and not {k, ak} <= {'new', 'obj'}: res.append(('mismatch', i, 'comes from %s but is released by %s' % (NAMES[ak], {'new': 'delete', 'new[]': 'delete[]', 'malloc': 'free', 'obj': 'delete'}[k])))
                if q == 'realloc': pass
                return [('F', h)]
            if q == 'realloc' and self.holds(i.a[0], h) is not None: return [('F', {})] if False else 'stop'
            if q.startswith('llvm.'):
                if s == 'F' and q.startswith('llvm.mem') and any(self.holds(a, h) is not None for a in i.a[:2]): res.append(('use', i, 'is accessed after it was released')); return 'stop'
                if q.startswith(('llvm.memcpy', 'llvm.memmove')):
                    src = self.F.val(i.a[1])
                    if any(kk == 's' and any(o[0] == so for so, x in src) for kk, o in h): return 'lost'
                if q.startswith('llvm.lifetime.end'):
                    obj = {o for o, x in self.F.val(i.a[-1])}
                    if any(kk == 's' and o[0] in obj for kk, o in h): h = {k: v for k, v in h.items() if not (k[0] == 's' and k[1][0] in obj)}
                return [(s, h)]
            if q in ('exit', 'abort', '__cxa_throw', '_exit', '__assert_fail'): return 'stop'
            if q == '__dynamic_cast':
                o = self.holds(i.a[0], h)
                if o is None: return [(s, h)]
                h2 = dict(h); h2[('v', i.id)] = o
                return [(s, h2)]
            hit = [a for a in i.a if self.holds(a, h) is not None]
            if hit and s == 'F' and not q.startswith('llvm'):
                res.append(('use', i, 'is passed to %s after it was released' % q)); return 'stop'
            if hit:
                c2, recv, args = self.F.callinfo(i)
                for a, t in args:
                    if self.holds(a, h) is not None:
                        if OWNER.search(q.rsplit('::', 1)[-1]) and not c2['m'] in self.prog.fns and t and t.rstrip().endswith('*') and q.split('::')[0] in ('OsiCuts', 'OsiSolverInterface', 'CoinWarmStartBasis'): return 'lost'
                        if q.startswith('std::') and not ALGO.match(q) and not c2['const'] and t: return 'lost'
            # address of a slot that holds the block handed to a callee that may replace or take it
            for a in i.a:
                vs = self.F.val(a)
                if any(kk == 's' and any(o[0] == vo and (x == '*' or x <= (o[1] if o[1] != '*' else 0)) for vo, x in vs) for kk, o in h):
                    c2, recv, args = self.F.callinfo(i)
                    t = dict((repr(x), y) for x, y in args).get(repr(a))
                    if recv is not None and repr(recv) == repr(a): continue
                    if t and (t.endswith('*&') or t.endswith('**')): return 'lost'
                    if q.startswith('std::') : return 'lost'
            return [(s, h)]
        return [(s, h)]
