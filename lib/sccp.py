"""Conditional constant propagation over known bits: which blocks can execute when some loads or
arguments are fixed.  A value is (mask, bits): the bits of the value that are known; None = not seen yet."""
TOP = (0, 0)
FULL = (1 << 64) - 1
def k(v): return (FULL, v & FULL)
def isk(x): return x is not None and x[0] == FULL
def join(a, b):
    if a is None: return b
    if b is None: return a
    m = a[0] & b[0] & ~(a[1] ^ b[1])
    return (m, a[1] & m)
def sgn(v): return v - (1 << 64) if v >> 63 else v
W = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}

class Sccp:
    def __init__(self, fn, fixed, start=0):
        """fixed(ins) -> (mask,bits) for a load/call result that is fixed, or None"""
        self.fn = fn; self.fixed = fixed; self.v = {}; self.edge = set(); self.blk = set()
        work = [(None, start)]; uses = fn.uses()
        while work:
            p, b = work.pop()
            if (p, b) in self.edge: continue
            self.edge.add((p, b))
            first = b not in self.blk
            self.blk.add(b)
            todo = [i for i in fn.blocks[b] if first or i.op == 'phi']
            while todo:
                i = todo.pop(0)
                if i.blk not in self.blk: continue
                if i.op in ('br', 'switch', 'invoke'):
                    for s in self._targets(i):
                        if (i.blk, s) not in self.edge: work.append((i.blk, s))
                    if i.op != 'invoke': continue
                n = self._eval(i); o = self.v.get(i.id)
                n = join(o, n) if o is not None else n
                if n != o:
                    self.v[i.id] = n
                    todo += uses.get(i.id, [])
    def val(self, x):
        if isinstance(x, int): return self.v.get(x)
        if isinstance(x, dict):
            if 'c' in x: return k(x['c'])
            if 'null' in x: return k(0)
        return TOP
    def _targets(self, i):
        d = i.d
        if i.op == 'br':
            if 'cond' not in d or len(d['t']) < 2: return d['t']
            c = self.val(d['cond'])
            if c is None: return []
            if c[0] & 1: return [d['t'][0 if c[1] & 1 else 1]]
            return d['t']
        if i.op == 'switch':
            c = self.val(d['cond'])
            if c is None: return []
            if isk(c):
                for x, s in d['cases']:
                    if (x & FULL) == c[1] or (x & 0xffffffff) == (c[1] & 0xffffffff): return [s]
                return [d['def']]
            return [s for x, s in d['cases']] + [d['def']]
        return self.fn.succ[i.blk]
    def _eval(self, i):
        f = self.fixed(i)
        if f is not None: return f
        op = i.op
        if op == 'phi':
            r = None
            for x, b in i.d['in']:
                if (b, i.blk) in self.edge: r = join(r, self.val(x))
            return r
        if op == 'select':
            c = self.val(i.a[0])
            if c is None: return None
            if c[0] & 1: return self.val(i.a[1 if c[1] & 1 else 2])
            return join(self.val(i.a[1]), self.val(i.a[2]))
        if op in ('and', 'or', 'xor', 'add', 'sub', 'mul', 'shl', 'lshr', 'icmp', 'trunc', 'zext', 'sext', 'freeze'):
            a = [self.val(x) for x in i.a]
            if any(x is None for x in a): return None
            if op == 'and':
                m = (a[0][0] & a[1][0]) | (a[0][0] & ~a[0][1]) | (a[1][0] & ~a[1][1]); m &= FULL
                return (m, a[0][1] & a[1][1] & m)
            if op == 'or':
                m = (a[0][0] & a[1][0]) | (a[0][0] & a[0][1]) | (a[1][0] & a[1][1])
                return (m, (a[0][1] | a[1][1]) & m)
            if op == 'xor':
                m = a[0][0] & a[1][0]; return (m, (a[0][1] ^ a[1][1]) & m)
            if op in ('trunc', 'freeze', 'sext'):
                return a[0]
            if op == 'zext':
                w = W.get(i.d.get('from') or self._ty(i.a[0]), 1)
                lo = (1 << w) - 1
                return (a[0][0] | (FULL & ~lo), a[0][1] & lo)
            if op == 'icmp':
                p = i.d['p']
                if p in ('eq', 'ne'):
                    m = a[0][0] & a[1][0]
                    if (a[0][1] ^ a[1][1]) & m: return k(p == 'ne')
                    if m == FULL: return k(p == 'eq')
                    return TOP
                if isk(a[0]) and isk(a[1]):
                    x, y = (a[0][1], a[1][1]) if p[0] == 'u' else (sgn(a[0][1]), sgn(a[1][1]))
                    return k({'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p[1:]])
                return TOP
            if isk(a[0]) and isk(a[1]):
                x, y = a[0][1], a[1][1]
                return k({'add': x + y, 'sub': x - y, 'mul': x * y, 'shl': x << (y & 63), 'lshr': x >> (y & 63)}[op])
            if op == 'shl' and isk(a[1]):
                s = a[1][1] & 63; return (((a[0][0] << s) | ((1 << s) - 1)) & FULL, (a[0][1] << s) & FULL)
            if op == 'lshr' and isk(a[1]):
                s = a[1][1] & 63; return (a[0][0] >> s, a[0][1] >> s)
            return TOP
        return TOP
    def _ty(self, x):
        return self.fn.ins[x].ty if isinstance(x, int) else None
