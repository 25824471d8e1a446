"""Consistent control flow paths: refinement of the set of remembered branch conditions until a path does not contradict itself."""
import re
from model import isconst, cval
from paths import INV

def evalx(e, env, dec=None):
    """value of a canonical expression when some phis have known constants; dec: truth of conditions decided otherwise"""
    if dec:
        q = dec(e)
        if q is not None: return int(q)
    if e[0] == 'c': return e[1]
    if e[0] == 'null': return 0
    if e[0] == 'i': return env.get(e[1])
    if e[0] == 'cmp':
        a, b = evalx(e[2], env, dec), evalx(e[3], env, dec)
        if a is None or b is None: return None
        p = e[1].lstrip('su') if e[1] in ('slt', 'sgt', 'sle', 'sge', 'ult', 'ugt', 'ule', 'uge') else e[1]
        return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}.get(p)
    if e[0] in ('zext', 'sext', 'trunc'): return evalx(e[1], env, dec)
    if e[0] in ('and', 'or', 'xor', 'add', 'sub'):
        a, b = evalx(e[1], env, dec), evalx(e[2], env, dec)
        if e[0] == 'and' and (a == 0 or b == 0): return 0
        if a is None or b is None: return None
        return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a + b, 'sub': a - b}[e[0]]
    return None

def plain(e):
    """no arithmetic: the values such expressions take in a loop stay few"""
    return e[0] not in ('add', 'sub', 'mul', 'shl') and all(plain(x) for x in e[1:] if isinstance(x, tuple))

class Walk:
    """consistent paths: conditions tested more than once, constants that phis select, members known to be null on entry"""
    """known: {member offset: value on entry}; assume: {member offset: True} means not null on entry; decide: condition -> truth or None"""
    def __init__(self, F, f, P, evs, reset, known=None, nonnull=(), decide=None, flags=False):
        self.F = F; self.f = f; self.P = P; self.evs = evs; self.reset = set(reset); self.nonnull = set(nonnull); self.decide = decide or (lambda k: None); self.dec = self.anyform if decide else None
        self.known = known or {}
        self.count = {}
        self.E = {}
        for b in range(len(f.blocks)):
            self.E[b] = P.edges(b)
            for s, k, t in self.E[b]:
                if k is not None: self.count.setdefault(k, set()).add(b)
        # phis that decide branches
        leaf = {}
        for k, bs in self.count.items():
            for l in P.leaves(k): leaf.setdefault(l, set()).update(bs)
        self.phis = {}
        wl = [l for l in leaf if f.ins[l].op == 'phi' and f.ins[l].ty != 'ptr']; seen = set(wl)
        cand = set()
        while wl:
            x = wl.pop(); i = f.ins[x]
            if not (isinstance(i.ty, str) and re.match(r'i\d', i.ty)): continue
            cand.add(x)
            for v, _ in i.d['in']:
                if not isinstance(v, int) or not plain(P.expr(v)): continue
                for l in P.leaves(P.expr(v)):
                    if f.ins[l].op == 'phi' and l not in seen: seen.add(l); wl.append(l)
        # keep those that can be constant through constants and other such phis
        good = set(); ch = True
        while ch:
            ch = False
            for x in cand - good:
                if any(isconst(v) or isinstance(v, int) and plain(P.expr(v)) and not P.leaves(P.expr(v)).isdisjoint(good) for v, _ in f.ins[x].d['in']): good.add(x); ch = True
        # only flags: no counters
        ch = flags
        while ch:
            ch = False
            for x in sorted(good):
                if not all(isconst(v) or isinstance(v, dict) and 'undef' in v or isinstance(v, int) and (plain(P.expr(v)) and (P.expr(v)[0] != 'i' or f.ins[v].op != 'phi' or v in good)) for v, _ in f.ins[x].d['in']): good.discard(x); ch = True
        for x in good: self.phis.setdefault(f.ins[x].blk, []).append(x)
        self.allphi = good
        # null tests of members: block -> {key: offset}
        self.tests = {}
        for b in range(len(f.blocks)):
            for s, k, t in self.E[b]:
                if k is None or k[0] != 'cmp' or k[1] != 'eq': continue
                for x, y in ((k[2], k[3]), (k[3], k[2])):
                    if x[0] == 'i' and y in (('null',), ('c', 0)) and f.ins[x[1]].op == 'load' and f.ins[x[1]].blk == b:
                        v = F.val(f.ins[x[1]].a[0])
                        if len(v) == 1:
                            (o, off), = v
                            if o == ('arg', 0) and (off in self.reset or off in self.nonnull): self.tests.setdefault(b, {})[k] = (off, f.ins[x[1]].pos)
        self.defs = {}
        for b, e in evs.items():
            for i, k, x in e:
                if k == 'def' and (x in self.reset or x in self.nonnull or x in self.known): self.defs.setdefault(b, {}).setdefault(x, i.pos)
        # loads of members with a known value
        self.kloads = {}
        for i in f.all():
            if i.op == 'load' and self.known:
                v = F.val(i.a[0])
                if len(v) == 1:
                    (o, off), = v
                    if o == ('arg', 0) and off in self.known: self.kloads.setdefault(i.blk, []).append((i.pos, i.id, off))
        for i in f.all():
            if i.op == 'store' and self.known:
                for o, off in F.val(i.a[1]):
                    if o == ('arg', 0) and off in self.known: self.defs.setdefault(i.blk, {}).setdefault(off, i.pos)
    def anyform(self, e):
        """truth of a comparison in any form, through decide()"""
        if e[0] != 'cmp': return None
        q = self.decide(e)
        if q is not None: return q
        q = self.decide(('cmp', INV[e[1]], e[2], e[3]))
        return None if q is None else not q
    def conflict(self, path):
        """conditions that a path answers in two ways"""
        f, P = self.f, self.P; d = {}; out = set()
        for b, s in zip(path, path[1:]):
            for x, k, t in self.E[b]:
                if x == s and k is not None:
                    if len([1 for e in self.E[b] if e[0] == s]) > 1: continue
                    if k in d and d[k] != t: out.add(k)
                    d[k] = t
            for k in [k for k in d if any(f.ins[l].blk == s for l in P.leaves(k))]: d.pop(k)
        return out
    def run(self, target, stop=(), cap=40000, start=0):
        """a consistent path from the entry to a block: refines the set of remembered conditions until the path found is consistent"""
        keys = set()
        for _ in range(40):
            p = self.search(target, stop, keys, cap, start)
            if p is None or p == 'cap': return p
            c = self.conflict(p) - keys
            if not c: return p
            keys |= c
        return 'cap'
    def search(self, target, stop, keys, cap, start=0):
        f, P = self.f, self.P
        kill = {}
        for k in keys:
            for l in P.leaves(k): kill.setdefault(f.ins[l].blk, set()).add(k)
        e0 = {} if start else {x: self.known[off] for pos, x, off in self.kloads.get(0, ()) if not (off in self.defs.get(0, {}) and self.defs[0][off] < pos)}
        n0 = (start, frozenset(), frozenset(e0.items()), frozenset())
        st = [n0]; seen = {n0: None}; h = 0
        while h < len(st):
            if len(seen) > cap: return 'cap'
            cur = st[h]; h += 1
            b, fs, env, wr = cur
            if (b == target and h > 1 or b == target and not start) or (target == 'ret' and b not in stop and f.blocks[b][-1].op == 'ret'):
                out = []
                while cur is not None: out.append(cur[0]); cur = seen[cur]
                return out[::-1]
            if b in stop: continue
            d = dict(fs); ev = dict(env)
            df = self.defs.get(b, {}); w2 = wr | frozenset(df)
            for s, k, t in self.E[b]:
                if k is not None:
                    q = self.tests.get(b, {}).get(k)
                    if q and q[0] not in wr and not (q[0] in df and df[q[0]] < q[1]) and t != (q[0] in self.reset): continue     # the member is null / not null
                    q = self.decide(k)
                    if q is not None and q != t: continue
                    if ev or self.dec:
                        r = evalx(k, ev, self.dec)
                        if r is not None and bool(r) != t: continue
                    if k in keys and k in d and d[k] != t: continue
                dd = dict(d)
                if k in keys: dd[k] = t
                for kk in kill.get(s, ()): dd.pop(kk, None)
                e2 = ev
                if s in self.kloads:
                    e2 = dict(e2); ds = self.defs.get(s, {})
                    for pos, x, off in self.kloads[s]:
                        if off in w2 or (off in ds and ds[off] < pos): e2.pop(x, None)
                        else: e2[x] = self.known[off]
                if s in self.phis:
                    e2 = dict(e2)
                    for x in self.phis[s]:
                        v = [v for v, q in f.ins[x].d['in'] if q == b]
                        v = v[0] if v else None
                        n = cval(v) if isconst(v) and 'c' in v else evalx(P.expr(v), ev, self.dec) if isinstance(v, int) and plain(P.expr(v)) else None
                        if n is None: e2.pop(x, None)
                        else: e2[x] = n
                n = (s, frozenset(dd.items()), frozenset(e2.items()), w2)
                if n not in seen: seen[n] = (b, fs, env, wr); st.append(n)
        return None

