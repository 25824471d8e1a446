"""Small path helpers on the SSA control flow graph: canonical branch conditions, reachability that
respects conditions tested more than once, lower bounds of index values."""
from model import isconst, cval

INV = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt',
       'olt': 'uge', 'oge': 'ult', 'ogt': 'ule', 'ole': 'ugt', 'oeq': 'une', 'one': 'ueq', 'ueq': 'one', 'une': 'oeq', 'ord': 'uno', 'uno': 'ord'}
SWP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule',
       'olt': 'ogt', 'ogt': 'olt', 'ole': 'oge', 'oge': 'ole', 'oeq': 'oeq', 'one': 'one', 'ueq': 'ueq', 'une': 'une', 'ord': 'ord', 'uno': 'uno'}

def okey(v):
    if isinstance(v, int): return ('i', v)
    if isinstance(v, dict):
        if 'c' in v: return ('c', v['c'])
        if 'f' in v: return ('f', v['f'])
        if 'null' in v: return ('null',)
        if 'g' in v: return ('g', v['g'])
        if 'a' in v and 'ce' not in v: return ('a', v['a'])
    return ('?', repr(v))

class Paths:
    def __init__(self, fn):
        self.fn = fn
        self._expr = {}
        self.reachc = {}
    # canonical form of an expression, through pure operators
    def expr(self, v, d=0):
        if not isinstance(v, int): return okey(v)
        if v in self._expr: return self._expr[v]
        i = self.fn.ins[v]; r = ('i', v)
        if d < 8:
            if i.op in ('icmp', 'fcmp'):
                a, b = self.expr(i.a[0], d + 1), self.expr(i.a[1], d + 1); p = i.d['p']
                if repr(b) < repr(a): a, b, p = b, a, SWP[p]
                r = ('cmp', p, a, b)
            elif i.op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'sext', 'zext', 'trunc', 'shl', 'fadd', 'fsub', 'fmul', 'sitofp'):
                r = (i.op,) + tuple(self.expr(x, d + 1) for x in i.a)
        self._expr[v] = r
        return r
    def cond(self, v):
        """(key, polarity)"""
        e = self.expr(v)
        if e[0] == 'cmp':
            p = e[1]
            if p in ('ne', 'sge', 'sle', 'uge', 'ule', 'une', 'one', 'oge', 'ole', 'ugt' if False else 'ne'):
                return ('cmp', INV[p], e[2], e[3]), False
            return e, True
        if e[0] == 'xor' and e[2] == ('c', 1): 
            k, pol = e[1], True
            return k, False
        if e[0] == 'xor' and e[2] == ('c', -1): return e[1], False
        return e, True
    def leaves(self, e):
        if e[0] == 'i': return {e[1]}
        if e[0] == 'ld': return set()
        s = set()
        for x in e[1:]:
            if isinstance(x, tuple): s |= self.leaves(x)
        return s
    def edges(self, b):
        """[(succ, key or None, truth)]"""
        t = self.fn.blocks[b][-1]
        if t.op == 'br' and 'cond' in t.d and len(t.d['t']) == 2 and t.d['t'][0] != t.d['t'][1]:
            if isconst(t.d['cond']): return [(t.d['t'][0 if cval(t.d['cond']) else 1], None, None)]
            k, pol = self.cond(t.d['cond'])
            return [(t.d['t'][0], k, pol), (t.d['t'][1], k, not pol)]
        if t.op == 'switch':
            e = self.expr(t.d['cond'])
            out = []
            for c, s in t.d['cases']: out.append((s, ('cmp', 'eq', ('c', c), e) if repr(('c', c)) < repr(e) else ('cmp', 'eq', e, ('c', c)), True))
            out.append((t.d['def'], None, None))
            return out
        return [(s, None, None) for s in self.fn.succ[b]]
    def reach(self, b):
        """blocks reachable from b by at least one edge"""
        if b not in self.reachc:
            seen = set(); st = list(self.fn.succ[b])
            while st:
                x = st.pop()
                if x in seen: continue
                seen.add(x); st += self.fn.succ[x]
            self.reachc[b] = seen
        return self.reachc[b]
    def before(self, i, j):
        """can instruction j be executed after instruction i?"""
        if i.blk == j.blk and i.pos < j.pos: return True
        return j.blk in self.reach(i.blk)
    def feasible(self, start, target, facts=None, via=None, cap=20000):
        """is there a path from the entry through edge/blocks `via` (a block, or (pred,block)) to block target,
        keeping conditions that are tested several times consistent?"""
        fn = self.fn
        count = {}
        for b in range(len(fn.blocks)):
            for s, k, t in self.edges(b):
                if k is not None: count.setdefault(k, set()).add(b)
        keys = {k for k, bs in count.items() if len(bs) > 1}
        if via is not None:
            vb = via if isinstance(via, int) else via[0]
            dt = lambda bs, x: any(fn.dominates(b, x) for b in bs)
            keys = {k for k in keys if dt(count[k], target) and dt(count[k], vb)}
        keys |= set(facts or {})
        lv = {k: self.leaves(k) for k in keys}
        kill = {}
        for k in keys:
            for l in lv[k]: kill.setdefault(fn.ins[l].blk, set()).add(k)
        st = [(start, frozenset((facts or {}).items()), via is None or via == start)]
        seen = set(st)
        while st:
            if len(seen) > cap: return True
            b, fs, v = st.pop()
            if b == target and v: return True
            d = dict(fs)
            for s, k, t in self.edges(b):
                if k in keys:
                    if k in d and d[k] != t: continue
                dd = dict(d)
                if k in keys: dd[k] = t
                nv = v or via == s or via == (b, s)
                if s in kill:
                    for kk in kill[s]: dd.pop(kk, None)
                n = (s, frozenset(dd.items()), nv)
                if n not in seen: seen.add(n); st.append(n)
        return False
    # ---- index bounds
    def atleast(self, v, base, blk=None, seen=None):
        """is v >= every value that satisfies `base` (predicate on instructions), syntactically?"""
        seen = seen or set()
        if not isinstance(v, int): return False
        if v in seen: return True
        seen = seen | {v}
        i = self.fn.ins[v]
        if base(i): return True
        if i.op in ('sext', 'zext', 'trunc', 'freeze'): return self.atleast(i.a[0], base, blk, seen)
        if i.op == 'add':
            for x, y in ((i.a[0], i.a[1]), (i.a[1], i.a[0])):
                if isconst(y) and cval(y) >= 0: return self.atleast(x, base, blk, seen)
        if i.op == 'phi': return all(self.atleast(x, base, b, seen) for x, b in i.d['in'])
        if i.op == 'select': return all(self.atleast(x, base, blk, seen) for x in i.a[1:])
        return False
    def guards(self, blk):
        """conditions (key, truth) that hold whenever blk executes (dominating branch edges)"""
        fn = self.fn; out = []
        idom = fn.dom(); b = blk
        if b not in idom: return out
        while idom[b] != b:
            p = idom[b]
            es = self.edges(p)
            # the edge p->x holds at blk if x dominates blk and x's only predecessor is p
            for s, k, t in es:
                if k is not None and len([1 for e in es if e[0] == s]) == 1 and fn.pred[s] == [p] and fn.dominates(s, blk): out.append((k, t))
            b = p
        return out
    def guarded_atleast(self, v, base, blk):
        if self.atleast(v, base): return True
        e = self.expr(v)
        for k, t in self.guards(blk):
            if k[0] != 'cmp': continue
            for a, b, p in ((k[2], k[3], k[1]), (k[3], k[2], SWP[k[1]])):
                if a != e: continue
                q = p if t else INV[p]
                if q in ('sge', 'sgt', 'eq', 'uge', 'ugt') and b[0] == 'i' and self.atleast(b[1], base): return True
        return False
