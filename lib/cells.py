"""Forward dataflow over one (inlined) SSA function that tracks what every memory cell holds.

The abstract state maps cells (base pointer, byte offset) to abstract values that name where a
value came from: a constant, the entry content of another cell, an argument, a fresh block, the
result of a library call.  States are kept apart per branch outcome (a finite set of comparison
facts) and joined when they agree on everything that is still live.  Loops are summarised: what the
body writes is forgotten at the header, and element-wise stores over an induction variable become
one "for all i in [lo,hi)" array event.  Nothing is executed and no solver is used; a comparison is
only ever an uninterpreted atom with a truth value (plus constant folding and interval clashes).
"""
import re
from model import AnalysisBroken, qualname

class Undecided(Exception):
    pass

# ---------------------------------------------------------------- values
NULL = ('c', None)
def C(v): return ('c', v)
def isc(v): return v[0] == 'c'

def lin(const, terms):
    """linear combination: terms {atom: coef}"""
    t = tuple(sorted(((a, c) for a, c in terms.items() if c), key=repr))
    if not t: return C(const)
    if const == 0 and len(t) == 1 and t[0][1] == 1: return t[0][0]
    return ('lin', const, t)
def tolin(v):
    if v[0] == 'c' and isinstance(v[1], (int, bool)): return int(v[1]), {}
    if v[0] == 'lin': return v[1], dict(v[2])
    return 0, {v: 1}
def add(a, b, k=1):
    c1, t1 = tolin(a); c2, t2 = tolin(b)
    t = dict(t1)
    for x, c in t2.items(): t[x] = t.get(x, 0) + k * c
    return lin(c1 + k * c2, t)
def scale(a, k):
    c, t = tolin(a)
    return lin(c * k, {x: y * k for x, y in t.items()})

def subst(v, f):
    """rebuild a value, replacing sub-values by f (which returns None to keep)"""
    r = f(v)
    if r is not None: return r
    if isinstance(v, tuple):
        if v and v[0] == 'lin':
            out = C(v[1])
            for a, c in v[2]: out = add(out, scale(subst(a, f), c))
            return out
        return tuple(subst(x, f) if isinstance(x, tuple) else x for x in v)
    return v
def contains(v, pred):
    if pred(v): return True
    return isinstance(v, tuple) and any(contains(x, pred) for x in v if isinstance(x, tuple))
def has_unknown(v):
    return contains(v, lambda x: isinstance(x, tuple) and len(x) > 0 and x[0] in ('unk', 'phi', 'call', 'mut'))

def base_of(v):
    """(base, const offset, index terms or None)"""
    if v[0] == 'p': return v[1], v[2], None
    if v[0] == 'px': return v[1], v[2], v[3]
    return v, 0, None
def mkptr(base, off, idx=None):
    if idx is not None and isc(idx): off += idx[1]; idx = None
    if idx is not None:
        c, t = tolin(idx)
        if c: off += c; idx = lin(0, t)
        return ('px', base, off, idx)
    if off == 0 and base[0] not in ('alloca', 'glob'): return base
    return ('p', base, off)

ESIZE = {'int': 4, 'double': 8, 'char': 1, 'bool': 1, 'float': 4, 'short': 2, 'long': 8, 'unsigned int': 4, 'unsigned char': 1, 'long long': 8, 'signed char': 1, 'unsigned long': 8}

class State:
    __slots__ = ('cells', 'arr', 'rel', 'facts', 'env', 'clob', 'bad', 'log', 'allocs')
    def __init__(self):
        self.allocs = {}
        self.cells = {}; self.arr = {}; self.rel = {}; self.facts = {}; self.env = {}; self.clob = {}; self.bad = (); self.log = ()
    def copy(self):
        s = State(); s.cells = dict(self.cells); s.arr = dict(self.arr); s.rel = dict(self.rel); s.facts = dict(self.facts)
        s.env = dict(self.env); s.clob = dict(self.clob); s.bad = self.bad; s.log = self.log; s.allocs = dict(self.allocs)
        return s
    def key(self):
        return (frozenset(self.cells.items()), frozenset(self.arr.items()), frozenset(self.clob.items()), frozenset(self.env.items()), self.bad)
    def released(self, p):
        return p in self.rel or self.facts.get(('eq',) + _ord(p, NULL)) is True or \
            (p[0] == 'p' and self.facts.get(('eq',) + _ord(p[1], NULL)) is True)

def _ord(a, b):
    return (a, b) if repr(a) <= repr(b) else (b, a)

NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}

def atom(p, a, b):
    """canonical (atom, polarity) or (None, bool) if it folds"""
    p = {'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge', 'olt': 'slt', 'ole': 'sle', 'ogt': 'sgt', 'oge': 'sge',
         'oeq': 'eq', 'ueq': 'eq', 'one': 'ne', 'une': 'ne', 'ord': 'ord', 'uno': 'uno'}.get(p, p)
    if isc(a) and isc(b):
        x, y = a[1], b[1]
        if p in ('eq', 'ne'):
            return None, (x == y) == (p == 'eq')
        if x is not None and y is not None:
            if p == 'slt': return None, x < y
            if p == 'sle': return None, x <= y
            if p == 'sgt': return None, x > y
            if p == 'sge': return None, x >= y
    if a == b and p in ('eq', 'sle', 'sge', 'ne', 'slt', 'sgt'):
        return None, p in ('eq', 'sle', 'sge')
    if p in ('eq', 'ne'):
        for x, y in ((a, b), (b, a)):
            bx = base_of(x)[0]; by = base_of(y)[0]
            if bx[0] in ('new', 'alloca', 'clone') or x[0] == 'p':
                if y == NULL: return None, p == 'ne'
            if bx[0] in ('new', 'alloca') and by[0] in ('arg', 'in', 'new', 'alloca') and bx != by: return None, p == 'ne'
            if bx[0] == 'arg' and by[0] == 'arg' and bx != by and 'obj' in (bx[2:] or ()) and 'obj' in (by[2:] or ()): return None, p == 'ne'
        # ignore linear shift of integers against constants: x+1 == 3
        x, y = _ord(a, b)
        return ('eq', x, y), p == 'eq'
    if p == 'slt': return ('lt', a, b), True
    if p == 'sge': return ('lt', a, b), False
    if p == 'sgt': return ('lt', b, a), True
    if p == 'sle': return ('lt', b, a), False
    return ('cmp' + p, a, b), True

def interval(facts, v):
    """(lo, lo_strict, hi, hi_strict, set of excluded, exact or None) implied for v by facts against constants"""
    lo = float('-inf'); ls = True; hi = float('inf'); hs = True; ne = set(); eq = None
    for at, t in facts.items():
        if at[0] == 'lt':
            if at[1] == v and isc(at[2]) and isinstance(at[2][1], (int, float)):
                c = at[2][1]
                if t and (c < hi or (c == hi and not hs)): hi, hs = c, True
                if not t and (c > lo): lo, ls = c, False
            if at[2] == v and isc(at[1]) and isinstance(at[1][1], (int, float)):
                c = at[1][1]
                if t and (c > lo or (c == lo and not ls)): lo, ls = c, True
                if not t and (c < hi): hi, hs = c, False
        elif at[0] == 'eq':
            o = at[2] if at[1] == v else at[1] if at[2] == v else None
            if o is not None and isc(o):
                if t: eq = o
                else: ne.add(o[1])
    return lo, ls, hi, hs, ne, eq

def clash(facts, at, integer=True):
    for v in at[1:3]:
        if not isinstance(v, tuple) or isc(v): continue
        lo, ls, hi, hs, ne, eq = interval(facts, v)
        if integer:
            if ls and lo != float('-inf') and lo == int(lo): lo, ls = lo + 1, False
            if hs and hi != float('inf') and hi == int(hi): hi, hs = hi - 1, False
            while lo in ne and not ls: lo += 1
            while hi in ne and not hs: hi -= 1
        if lo > hi or (lo == hi and (ls or hs) and abs(lo) != float('inf')): return True
        if eq is not None:
            e = eq[1]
            if e in ne: return True
            if isinstance(e, (int, float)) and (e < lo or e > hi or (e == lo and ls) or (e == hi and hs)): return True
    return False

def merge_facts(f1, f2):
    """what both fact sets imply: the common atoms plus one small disjunction of the rest"""
    common = {a: v for a, v in f1.items() if f2.get(a, None) == v and a in f2}
    def disj(f):
        rest = {a: v for a, v in f.items() if a not in common}
        plain = tuple((a, v) for a, v in rest.items() if a[0] != 'dnf')
        ds = [a for a in rest if a[0] == 'dnf']
        if not ds: return [frozenset(plain)]
        return [frozenset(plain + d) for d in ds[0][1]]
    D = set(disj(f1)) | set(disj(f2))
    if len(D) > 24: return common
    changed = True
    while changed:
        changed = False
        L = sorted(D, key=len)
        for x in range(len(L)):
            for y in range(x + 1, len(L)):
                d, e = L[x], L[y]
                if d <= e: D.discard(e); changed = True; break
                df = d ^ e
                if len(df) == 2 and len(d) == len(e) and len({a for a, v in df}) == 1:
                    D.discard(d); D.discard(e); D.add(d & e); changed = True; break
            if changed: break
    if len(D) > 10 or frozenset() in D: return common
    if len(D) == 1:
        common.update(dict(next(iter(D)))); return common
    common[('dnf', tuple(sorted((tuple(sorted(d, key=repr)) for d in D), key=repr)))] = True
    return common

def implied(facts, pred):
    """does pred hold under the facts, splitting on recorded disjunctions"""
    if pred(facts): return True
    for a in facts:
        if a[0] == 'dnf':
            rest = {x: v for x, v in facts.items() if x != a}
            ok = True
            for d in a[1]:
                f = dict(rest); f.update(dict(d))
                if not implied(f, pred): ok = False; break
            if ok: return True
    return False

class Exit:
    def __init__(self, kind, st, ret, loc): self.kind = kind; self.st = st; self.ret = ret; self.loc = loc

class Analysis:
    MAXSTATES = 3000
    def __init__(self, prog, fn, args=None):
        """args: list of initial values per parameter; default ('arg',k)"""
        self.prog = prog; self.fn = fn
        self.args = args or [('arg', k) + (('obj',) if a['ty'] == 'ptr' else ()) for k, a in enumerate(fn.args)]
        self.exits = []
        self._loops()
        self._live()
        self.steps = 0
        self.fptypes = set()

    # ---- loops
    def _loops(self):
        f = self.fn; self.headers = {}
        for b in f.rpo():
            for s in f.succ[b]:
                if f.dominates(s, b):
                    body = self.headers.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st += f.pred[x]
        self.rpoidx = {b: k for k, b in enumerate(f.rpo())}

    def _live(self):
        f = self.fn
        def ops(i):
            d = i.d; out = []
            for v in d.get('a', []):
                if isinstance(v, int): out.append(v)
            for k in ('b', 'cond', 'fp'):
                if isinstance(d.get(k), int): out.append(d[k])
            for v in d.get('v', []):
                if isinstance(v[0], int): out.append(v[0])
            return out
        use = []; deff = []
        for L in f.blocks:
            u = set(); dd = set()
            for i in L:
                if i.op != 'phi':
                    for v in ops(i):
                        if v not in dd: u.add(v)
                dd.add(i.id)
            use.append(u); deff.append(dd)
        live = [set() for _ in f.blocks]; ch = True
        while ch:
            ch = False
            for b in reversed(f.rpo()):
                o = set()
                for s in f.succ[b]:
                    o |= live[s]
                    for i in f.blocks[s]:
                        if i.op != 'phi': break
                        for v, pb in i.d['in']:
                            if pb == b and isinstance(v, int): o.add(v)
                n = use[b] | (o - deff[b])
                if n != live[b]: live[b] = n; ch = True
        # phi results of the block itself are defined at entry
        self.live = [live[b] | {i.id for i in L if i.op == 'phi'} for b, L in enumerate(f.blocks)]

    # ---- driver
    def run(self):
        st = State()
        back, outs = self.region(set(range(len(self.fn.blocks))), 0, [(None, st)])
        return self.exits

    KMERGE = 24
    @staticmethod
    def join_rel(a, b):
        rel = {}
        def gone(s, p): return s.released(p) or (base_of(p)[0][0] in ('new', 'clone') and base_of(p)[0] not in s.allocs)
        for p, w in list(a.rel.items()) + list(b.rel.items()):
            if gone(a, p) and gone(b, p): rel[p] = w
        return rel
    def merge(self, states):
        by = {}
        for pb, s in states:
            k = (s.key())
            if k in by:
                t = by[k]
                t.rel = self.join_rel(t, s)
                t.facts = merge_facts(t.facts, s.facts)
                t.allocs = {**s.allocs, **t.allocs}
                if t.log != s.log: t.log = tuple(dict.fromkeys(t.log + s.log))
            else:
                by[k] = s
        out = list(by.values())
        if len(out) <= self.KMERGE: return out
        # too many: keep the disjunction per cell instead of per state
        groups = {}
        for s in out: groups.setdefault((frozenset(s.env.items()), frozenset(s.clob.items()), s.bad), []).append(s)
        return [self.fold(g) for g in groups.values()]
    def fold(self, g):
        if len(g) == 1: return g[0]
        r = State(); r.env = dict(g[0].env); r.clob = dict(g[0].clob); r.bad = g[0].bad
        r.facts = {a: v for a, v in g[0].facts.items() if all(s.facts.get(a) == v for s in g)}
        rel = g[0]
        for s in g[1:]:
            t = State(); t.rel = self.join_rel(rel, s); t.allocs = {**rel.allocs, **s.allocs}; t.facts = {a: v for a, v in rel.facts.items() if s.facts.get(a) == v}; rel = t
        r.rel = rel.rel; r.allocs = dict(rel.allocs)
        r.log = tuple(dict.fromkeys(e for s in g for e in s.log))
        for k in {k for s in g for k in s.cells}:
            byv = {}
            for s in g:
                v = s.cells.get(k, ('absent',))
                for vv, extra in (v[1] if v[0] == 'alts' else ((v, ()),)):
                    f = dict(s.facts); f.update(dict(extra))
                    byv.setdefault(vv, []).append(f)
            if len(byv) == 1: v = next(iter(byv))
            else:
                alts = []
                for vv, fs in byv.items():
                    def inter(L):
                        f = {a: t for a, t in L[0].items() if r.facts.get(a) != t}
                        for x in L[1:]: f = {a: t for a, t in f.items() if x.get(a) == t}
                        return f
                    f = inter(fs)
                    others = {it for w, L in byv.items() if w != vv for x in L for it in x.items()}
                    if len(fs) > 1 and not any(it not in others for it in f.items()):
                        rest = list(fs)
                        while rest:
                            cnt = {}
                            for x in rest:
                                for it in x.items():
                                    if it not in others: cnt[it] = cnt.get(it, 0) + 1
                            if not cnt: break
                            best = max(sorted(cnt, key=repr), key=lambda it: cnt[it])
                            alts.append((vv, inter([x for x in rest if x.get(best[0]) == best[1]])))
                            rest = [x for x in rest if x.get(best[0]) != best[1]]
                        if rest: alts.append((vv, inter(rest)))
                    else: alts.append((vv, f))
                v = ('alts', tuple(sorted(((x, tuple(sorted(f.items(), key=repr))) for x, f in alts), key=repr)))
            if v != ('absent',): r.cells[k] = v
        for k in {k for s in g for k in s.arr}:
            vs = {s.arr[k] for s in g if k in s.arr}
            r.arr[k] = next(iter(vs)) if len(vs) == 1 else tuple(dict.fromkeys(e for v in vs for e in v))
        return r
    def split(self, s, key):
        """states in which the cell holds one definite value"""
        v = s.cells.get(key)
        if v is None or v[0] != 'alts': return [s]
        out = []
        for x, fs in v[1]:
            t = s
            for a, tv in fs:
                t = self.assume_atom(t, a, tv)
                if t is None: break
            if t is None: continue
            t = t.copy()
            if x == ('absent',): del t.cells[key]
            else: t.cells[key] = x
            out.append(t)
        return out

    def region(self, blocks, entry, instates):
        """instates: [(pred block, state)] entering `entry`. Returns (states on back edges to entry, [(target, pred, state)])"""
        pend = {entry: list(instates)}
        order = sorted(blocks, key=lambda b: self.rpoidx.get(b, 10**9))
        back = []; outs = []
        first = True
        for b in order:
            if b not in pend: continue
            ss = pend.pop(b)
            if b in self.headers and not (b == entry and not first) and not (b == entry and self._in_loop == entry):
                res = self.loop(b, ss)
            else:
                ents = []
                for pb, s in ss:
                    s = self.enter(b, pb, s, first and b == entry and self._in_loop == entry)
                    ents.append((pb, s))
                ents = self.merge(ents)
                if len(ents) > self.MAXSTATES: raise Undecided('too many states in %s' % self.fn.qname)
                res = []
                for s in ents: res += self.block(b, s)
            first = False
            for tgt, pb, s in res:
                if tgt == entry and (self._in_loop == entry): back.append((pb, s))
                elif tgt in blocks and tgt != b: pend.setdefault(tgt, []).append((pb, s))
                elif tgt not in blocks: outs.append((tgt, pb, s))
                else: back.append((pb, s))
        return back, outs
    _in_loop = None

    def enter(self, b, pb, s, is_loop_header_sym=False):
        """phi evaluation and pruning of dead values"""
        s = s.copy(); new = {}
        if not is_loop_header_sym:
            for i in self.fn.blocks[b]:
                if i.op != 'phi': break
                for v, p in i.d['in']:
                    if p == pb: new[i.id] = self.val(s, v)
            s.env.update(new)
        lv = self.live[b]
        s.env = {k: v for k, v in s.env.items() if k in lv}
        return s

    def loop(self, h, ss):
        body = self.headers[h]
        outs = []
        entered = []
        for pb, s in ss: entered.append((pb, self.enter(h, pb, s)))
        sts = self.merge(entered)
        for s0 in sts:
            havoc = {}; arrs = {}; rels = {}
            for rnd in range(8):
                s = s0.copy()
                # symbolic phis
                for i in self.fn.blocks[h]:
                    if i.op != 'phi': break
                    init = s0.env.get(i.id)
                    step = None
                    for v, p in i.d['in']:
                        if p in body and isinstance(v, int):
                            x = self.fn.ins[v]
                            if x.op == 'add' and x.a[0] == i.id and isinstance(x.a[1], dict) and 'c' in x.a[1]: step = x.a[1]['c']
                            elif x.op == 'getelementptr' and x.d['b'] == i.id and not x.d['v'] and x.d['o'] is not None: step = ('b', x.d['o'])
                    if step == 1 and init is not None: s.env[i.id] = ('iv', i.id, init)
                    elif step == -1 and init is not None: s.env[i.id] = ('ivd', i.id, init)
                    elif isinstance(step, tuple) and init is not None: s.env[i.id] = ('px',) + base_of(init)[:2] + (('ivb', i.id, step[1]),)
                    else: s.env[i.id] = ('phi', i.id)
                for k in havoc: s.cells[k] = ('unk', 'loop', h, repr(k))
                for k, ev in arrs.items(): s.arr[k] = ev
                for k, w in rels.items(): s.rel[k] = w
                saved = self._in_loop; savex = len(self.exits)
                self._in_loop = h
                try:
                    back, o = self.region(body, h, [(None, s)])
                finally:
                    self._in_loop = saved
                nh = dict(havoc); na = dict(arrs); nr = dict(rels)
                for pb, t in back:
                    for k, v in t.cells.items():
                        if s.cells.get(k) != v: nh[k] = 1
                    for k, v in t.arr.items():
                        if s.arr.get(k) != v:
                            if k in na and na[k] != v:
                                v = tuple(dict.fromkeys(na[k] + v))
                            na[k] = v
                    for k, w in t.rel.items():
                        if k not in s.rel and contains(k, lambda x: x[0:1] in (('iv',), ('ivd',), ('ivb',))): nr[k] = w
                if nh == havoc and na == arrs and nr == rels: break
                del self.exits[savex:]
                havoc, arrs, rels = nh, na, nr
            else:
                raise Undecided('loop summary does not settle in %s' % self.fn.qname)
            outs += o
        return outs

    # ---- values
    def val(self, s, v):
        if isinstance(v, int): 
            if v in s.env: return s.env[v]
            return ('unk', 'v', v)
        if 'ce' in v:
            if v['ce'] == 'gep':
                b, o, ix = base_of(self.val(s, v['b']))
                return mkptr(b, o + v['o'], ix)
            return ('unk', 'ce', repr(v))
        if 'a' in v: return self.args[v['a']]
        if 'c' in v:
            return C(v['c'] if v.get('w') != 1 else (1 if v['c'] else 0))
        if 'f' in v: return C(float(v['f']))
        if 'null' in v: return NULL
        if 'g' in v: return ('p', ('glob', v['g']), 0)
        if 'undef' in v: return ('undef',)
        return ('unk', 'op', repr(v))

    def load(self, s, p, sz, i, depth=0):
        if depth > 20: return ('unk', 'cyclic', i.id)
        b, o, ix = base_of(p)
        if b in s.rel:
            s.bad += (('use-after-release', b, i.loc()),)
        if ix is None and (b, o) in s.cells: return s.cells[(b, o)]
        if ix is None:
            for k, v in s.cells.items():
                if k[0] == b and isinstance(k[1], tuple):
                    _, ro, rn = k[1]
                    if ro <= o < ro + rn:
                        if v[0] == 'rc':
                            return self.load(s, mkptr(v[1], v[2] + o - ro), sz, i, depth + 1)
                        return v
        ev = s.arr.get(b)
        if ev:
            # element of a block that is a whole copy of another block
            if len(ev) == 1 and ev[0][0] == 'copy' and ev[0][1] == 0:
                return self.load(s, self.shift(ev[0][2], o, ix), sz, i, depth + 1)
            if len(ev) == 1 and ev[0][0] == 'fill': return ev[0][1]
            return ('unk', 'elem', i.id)
        if (b) in s.clob: return ('unk', 'clob', s.clob[b], b, o, ix)
        if b[0] in ('new', 'alloca'):
            if len(b) > 4 and b[4] == 'zero': return C(0)
            return ('uninit',)
        if b[0] == 'glob':
            g = self.prog.globals.get(b[1])
            if g and g.get('const') and 'init' in g and ix is None:
                iv = g['init']
                if isinstance(iv, (int, float)) and o == 0: return C(iv)
            return ('in', b, o)
        if ix is not None: return ('ldx', b, o, ix)
        return ('in', b, o)

    @staticmethod
    def shift(p, o, ix):
        b, po, pix = base_of(p)
        if pix is None: return mkptr(b, po + o, ix)
        if ix is None: return mkptr(b, po + o, pix)
        return mkptr(b, po + o, add(pix, ix))

    def store(self, s, p, v, sz, i, uncond=True):
        b, o, ix = base_of(p)
        if b in s.rel: s.bad += (('use-after-release', b, i.loc()),)
        if ix is None:
            for k in [k for k in s.cells if k[0] == b and not isinstance(k[1], tuple) and k[1] != o and o < k[1] < o + sz]: del s.cells[k]
            s.cells[(b, o)] = v
        else:
            self.array_store(s, b, o, ix, v, sz, i)

    def track(self, s, p, i):
        """a fresh block; the same allocation site executed again is a different block"""
        s.rel.pop(p, None)
        s.allocs[p] = i.loc()
    def escape(self, s, v):
        b = base_of(v)[0]
        if b in s.allocs and b not in s.rel: del s.allocs[b]

    def lost(self, e):
        """blocks allocated by the function that nothing refers to at this exit and that were not released"""
        st = e.st; held = set()
        def note(v):
            if isinstance(v, tuple):
                if v and v[0] in ('new', 'clone'): held.add(v)
                for x in v:
                    if isinstance(x, tuple): note(x)
        # reachable from arguments, globals, the result
        if e.ret is not None: note(e.ret)
        roots = [k for k in st.cells if k[0][0] not in ('new', 'clone', 'alloca')]
        for k in roots: note(st.cells[k])
        for b, ev in st.arr.items():
            if b[0] not in ('new', 'clone', 'alloca'): note(ev)
        done = set()
        while held - done:
            b = (held - done).pop(); done.add(b)
            for k, v in st.cells.items():
                if k[0] == b: note(v)
            if b in st.arr: note(st.arr[b])
        return [(b, loc) for b, loc in st.allocs.items() if b not in held and not st.released(b) and not any(base_of(p)[0] == b for p in st.rel)]

    def array_store(self, s, b, o, ix, v, sz, i):
        self.escape(s, v)
        # dst[k] = v(k) over an induction variable k
        c, t = tolin(ix)
        ev = ('unk', i.id)
        if c == 0 and len(t) == 1:
            (a, k), = t.items()
            if a[0] == 'iv':
                n = None
                for at, tv in s.facts.items():
                    if tv and at[0] == 'lt' and at[1] == a: n = at[2]
                if n is not None and k == sz and self.uncond_in_loop(i.blk, a[1]):
                    if v[0] == 'ldx' and v[3] == ix and isc(a[2]):
                        src = mkptr(v[1], v[2])
                        ev = ('copy', o + a[2][1] * k if False else 0, src, scale(n, k), 'from', scale(a[2], k), o)
                        if a[2] == C(0) and o == 0: ev = ('copy', 0, src, scale(n, k))
                        else: ev = ('each', o, a[2], n, v)
                    elif not contains(v, lambda x: x == a):
                        if a[2] == C(0) and o == 0: ev = ('fill', v, scale(n, k))
                        else: ev = ('each', o, a[2], n, v)
                    else: ev = ('each', o, a[2], n, v)
        old = s.arr.get(b, ())
        if ev not in old: s.arr[b] = old + (ev,)

    def uncond_in_loop(self, blk, phi):
        h = self.fn.ins[phi].blk
        body = self.headers.get(h, set())
        return all(self.fn.dominates(blk, x) for x in self.fn.pred[h] if x in body) and \
            all(self.fn.succ[x] and (x == h or all(y in body for y in self.fn.succ[x])) for x in body)

    def elem_size(self, callee):
        d = self.prog.decls.get(callee)
        dem = d['dem'] if d else ''
        m = re.search(r'\w+<(.*)>\(', dem)
        if not m: return None
        t = m.group(1).split(',')[0].strip()
        if t.endswith('*'): return 8
        t = t.replace('const', '').strip()
        if t in ESIZE: return ESIZE[t]
        for k in (t, t.split('::')[-1]):
            if k in self.prog.classes: return self.prog.classes[k]['size']
            if k in self.prog.typedefs: return self.prog.typedefs[k]
            if k in self.prog.enums: return 4
        return None

    def release(self, s, v, how, i):
        if v == NULL: return
        b, o, ix = base_of(v)
        if s.facts.get(('eq',) + _ord(v, NULL)) is True: return
        if v in s.rel: s.bad += (('double-release', v, i.loc()),)
        s.rel[v] = (how, i.loc())
        s.log += (('release', v, how, i.loc()),)

    def do_copy(self, s, dst, src, nbytes, i):
        db, do, dx = base_of(dst); sb, so, sx = base_of(src)
        for b in (db, sb):
            if b in s.rel: s.bad += (('use-after-release', b, i.loc()),)
        if isc(nbytes) and dx is None and sx is None:
            n = nbytes[1]
            for k in [k for k in s.cells if k[0] == db and not isinstance(k[1], tuple) and do <= k[1] < do + n]: del s.cells[k]
            for k in [k for k in s.cells if k[0] == db and isinstance(k[1], tuple)]:
                if do <= k[1][1] and k[1][1] + k[1][2] <= do + n: del s.cells[k]
            moved = {}
            for k, v in list(s.cells.items()):
                if k[0] == sb and not isinstance(k[1], tuple) and so <= k[1] < so + n: moved[(db, do + k[1] - so)] = v
            s.cells[(db, ('R', do, n))] = ('rc', sb, so)
            s.cells.update(moved)
        ev = ('copy', do if dx is None else ('unk', i.id), src, nbytes)
        if dx is not None: ev = ('unk', i.id)
        # a full copy replaces earlier content only if it starts at 0; keep both otherwise
        if do == 0 and dx is None:
            old = ()
        else: old = s.arr.get(db, ())
        s.arr[db] = old + (ev,)

    def clobber(self, s, v, i):
        b, o, ix = base_of(v)
        if b[0] == 'c': return
        for k in [k for k in s.cells if k[0] == b]: s.cells[k] = ('mut', i.id)
        s.clob[b] = i.id
        if b in s.arr: s.arr[b] = (('unk', i.id),)

    # ---- blocks
    def block(self, b, s):
        """execute block b from state s; returns [(succ, b, state)]"""
        L = self.fn.blocks[b]
        cur = [s]
        for i in L:
            if i.op == 'phi': continue
            nxt = []
            for st in cur:
                r = self.step(st, i)
                if r is None: nxt.append(st)
                elif isinstance(r, tuple): return_list = r[1]; nxt += return_list
                else: nxt += r
            cur = nxt
            self.steps += len(cur)
            if self.steps > 400000: raise Undecided('too many steps in %s' % self.fn.qname)
            if not cur: return []
        t = L[-1]; out = []
        for st in cur:
            if t.op == 'br':
                if 'cond' in t.d:
                    for val, tgt in ((True, t.d['t'][0]), (False, t.d['t'][1])):
                        ns = self.assume(st, t.d['cond'], val)
                        if ns is not None: out.append((tgt, b, ns))
                else: out.append((t.d['t'][0], b, st))
            elif t.op == 'switch':
                cv = self.val(st, t.d['cond'])
                cases = t.d['cases']
                others = st.copy(); dead = False
                for c, tgt in cases:
                    at, tv = atom('eq', cv, C(c))
                    if at is None:
                        if tv: out.append((tgt, b, st)); dead = True; break
                        continue
                    ns = self.assume_atom(st, at, tv)
                    if ns is not None: out.append((tgt, b, ns))
                    if others is not None: others = self.assume_atom(others, at, not tv)
                if not dead and others is not None: out.append((t.d['def'], b, others))
            elif t.op == 'ret':
                self.exits.append(Exit('ret', st, self.val(st, t.a[0]) if t.a else None, t.loc()))
            else:
                kind = 'throw' if any(self.fn.call(x) and self.fn.call(x)['q'] in ('__cxa_throw', '__cxa_rethrow') for x in L) else 'abort'
                self.exits.append(Exit(kind, st, None, t.loc()))
        return out

    def assume(self, s, cond, val):
        c = self.val(s, cond)
        return self.assume_val(s, c, val)
    def assume_val(self, s, c, val):
        if isc(c): return s.copy() if bool(c[1]) == val else None
        if c[0] == 'cmp':
            at, tv = atom(c[1], c[2], c[3])
            if at is None: return s.copy() if tv == val else None
            return self.assume_atom(s, at, tv == val)
        if c[0] == 'not': return self.assume_val(s, c[1], not val)
        if c[0] == 'and' and val:
            t = self.assume_val(s, c[1], True)
            return self.assume_val(t, c[2], True) if t is not None else None
        if c[0] == 'or' and not val:
            t = self.assume_val(s, c[1], False)
            return self.assume_val(t, c[2], False) if t is not None else None
        return self.assume_atom(s, ('truth', c), val)
    def assume_atom(self, s, at, tv):
        if at in s.facts:
            return s.copy() if s.facts[at] == tv else None
        t = s.copy(); t.facts[at] = tv
        if at[0] == 'lt' and tv and t.facts.get(('lt', at[2], at[1])) is True: return None
        if at[0] in ('lt', 'eq') and clash(t.facts, at, not any(isinstance(x, tuple) and isc(x) and isinstance(x[1], float) for x in at[1:3])): return None
        return t

    def step(self, s, i):
        op = i.op; d = i.d; env = s.env
        if op in ('br', 'switch', 'ret', 'unreachable', 'phi'): return None
        if op == 'alloca': env[i.id] = ('p', ('alloca', i.id), 0); return None
        if op == 'load':
            p = self.val(s, i.a[0]); b, o, ix = base_of(p)
            if ix is None and s.cells.get((b, o), ('x',))[0] == 'alts':
                out = self.split(s, (b, o))
                for t in out: t.env[i.id] = self.load(t, p, d['sz'], i)
                return out
            env[i.id] = self.load(s, p, d['sz'], i); return None
        if op == 'store': self.store(s, self.val(s, i.a[1]), self.val(s, i.a[0]), d['sz'], i); return None
        if op == 'getelementptr':
            b, o, ix = base_of(self.val(s, d['b']))
            if d['o'] is None: env[i.id] = ('unk', 'gep', i.id); return None
            o += d['o']
            for v, sc in d['v']:
                t = scale(self.val(s, v), sc)
                ix = t if ix is None else add(ix, t)
            env[i.id] = mkptr(b, o, ix) if b[0] not in ('c',) else ('unk', 'gep', i.id)
            return None
        if op in ('bitcast', 'sext', 'zext', 'trunc', 'freeze', 'ptrtoint', 'inttoptr', 'addrspacecast', 'fpext', 'fptrunc', 'sitofp'):
            v = self.val(s, i.a[0])
            if op == 'sitofp' and isc(v): v = C(float(v[1]))
            elif op == 'sitofp': v = ('e', 'sitofp', v)
            if op in ('fpext',) and isc(v): v = C(v[1])
            env[i.id] = v; return None
        if op in ('add', 'sub'):
            a, b = self.val(s, i.a[0]), self.val(s, i.a[1])
            env[i.id] = add(a, b, 1 if op == 'add' else -1); return None
        if op in ('mul', 'shl'):
            a, b = self.val(s, i.a[0]), self.val(s, i.a[1])
            if op == 'mul' and isc(a): a, b = b, a
            if isc(b): env[i.id] = scale(a, b[1] if op == 'mul' else 1 << b[1])
            else: env[i.id] = ('e', op, a, b)
            return None
        if op in ('icmp', 'fcmp'):
            env[i.id] = ('cmp', d['p'], self.val(s, i.a[0]), self.val(s, i.a[1]))
            at, tv = atom(d['p'], env[i.id][2], env[i.id][3])
            if at is None: env[i.id] = C(1 if tv else 0)
            elif at in s.facts: env[i.id] = C(1 if s.facts[at] == tv else 0)
            return None
        if op == 'xor':
            a, b = self.val(s, i.a[0]), self.val(s, i.a[1])
            if b == C(1) and i.ty == 'i1': env[i.id] = ('not', a)
            else: env[i.id] = ('e', op, a, b)
            return None
        if op in ('and', 'or') and i.ty == 'i1':
            x, y = self.val(s, i.a[0]), self.val(s, i.a[1])
            if isc(y): x, y = y, x
            if isc(x): env[i.id] = y if bool(x[1]) == (op == 'and') else x
            else: env[i.id] = (op, x, y)
            return None
        if op == 'select':
            c = self.val(s, i.a[0])
            if isc(c): env[i.id] = self.val(s, i.a[1] if c[1] else i.a[2]); return None
            out = []
            for val in (True, False):
                t = self.assume_val(s, c, val)
                if t is not None:
                    t.env[i.id] = self.val(t, i.a[1] if val else i.a[2]); out.append(t)
            return out
        if op == 'extractvalue':
            v = self.val(s, i.a[0])
            if v[0] == 'agg': env[i.id] = v[1 + d['ix'][0]]
            else: env[i.id] = ('e', 'xv', v, d['ix'][0])
            return None
        if op == 'fneg':
            v = self.val(s, i.a[0]); env[i.id] = C(-v[1]) if isc(v) else ('e', 'fneg', v); return None
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = self.val(s, i.a[0]), self.val(s, i.a[1])
            if isc(a) and isc(b):
                try: env[i.id] = C({'fadd': a[1] + b[1], 'fsub': a[1] - b[1], 'fmul': a[1] * b[1], 'fdiv': a[1] / b[1] if b[1] else float('inf')}[op]); return None
                except Exception: pass
            env[i.id] = ('e', op, a, b); return None
        if op in ('call', 'invoke'): return self.call(s, i)
        if i.ty:
            env[i.id] = ('e', op) + tuple(self.val(s, x) for x in i.a)
        return None

    def call(self, s, i):
        f = self.fn; c = f.call(i); q = c['q']; env = s.env
        a = [self.val(s, x) if not (isinstance(x, dict) and 'md' in x) else ('md',) for x in i.a]
        base = q.split('::')[-1]
        if q.startswith('llvm.'):
            if q.startswith(('llvm.memcpy', 'llvm.memmove')): self.do_copy(s, a[0], a[1], a[2], i)
            elif q.startswith('llvm.memset'):
                b, o, ix = base_of(a[0])
                if isc(a[2]) and ix is None:
                    for k in [k for k in s.cells if k[0] == b and not isinstance(k[1], tuple) and o <= k[1] < o + a[2][1]]: del s.cells[k]
                    s.cells[(b, ('R', o, a[2][1]))] = C(0) if a[1] == C(0) else ('unk', 'memset', i.id)
                if ix is None and o == 0: s.arr[b] = (('fill', a[1], a[2]),)
            elif q.startswith('llvm.umul.with.overflow'):
                env[i.id] = ('agg', scale(a[0], a[1][1]) if isc(a[1]) else scale(a[1], a[0][1]) if isc(a[0]) else ('e', 'mul', a[0], a[1]), C(0))
            elif q.startswith('llvm.uadd.with.overflow'): env[i.id] = ('agg', add(a[0], a[1]), C(0))
            elif q.startswith(('llvm.fabs', 'llvm.sqrt', 'llvm.fmuladd', 'llvm.floor', 'llvm.ceil')): env[i.id] = ('e', q.split('.')[1]) + tuple(a)
            elif i.ty: env[i.id] = C(1) if 'type.test' in q else ('unk', 'llvm', i.id)
            return None
        if q in ('operator new', 'operator new[]', 'malloc'):
            env[i.id] = ('new', i.id, a[0], q); self.track(s, env[i.id], i); return None
        if q == 'calloc':
            n = scale(a[0], a[1][1]) if isc(a[1]) else ('e', 'mul', a[0], a[1])
            env[i.id] = ('new', i.id, n, q, 'zero'); self.track(s, env[i.id], i); return None
        if q in ('operator delete', 'operator delete[]', 'free'):
            self.release(s, a[0], q, i); return None
        if c.get('dtor'):
            if c.get('deleting'): self.release(s, a[0], 'delete', i)
            return None
        if base in ('CoinCopyN', 'CoinDisjointCopyN', 'CoinMemcpyN', 'CoinCopyNI') and len(a) == 3:
            es = self.elem_size(c['m'])
            if es is None: raise Undecided('element size of %s' % c['m'])
            self.do_copy(s, a[2], a[0], scale(a[1], es), i); return None
        if base in ('CoinCopy', 'CoinDisjointCopy') or q in ('std::copy', 'std::__copy_move_a', 'std::copy_n'):
            if q == 'std::copy_n': es = None
            if len(a) >= 3 and q != 'std::copy_n':
                fb, fo, fx = base_of(a[0]); lb, lo, lx = base_of(a[1])
                if fb == lb:
                    n = add(add(C(lo), lx or C(0)), add(C(fo), fx or C(0)), -1)
                    self.do_copy(s, a[2], a[0], n, i)
                    if i.ty: env[i.id] = ('unk', 'copyend', i.id)
                    return None
            self.clobber(s, a[2], i)
            if i.ty: env[i.id] = ('unk', 'copyend', i.id)
            return None
        if base in ('CoinCopyOfArray', 'CoinCopyOfArrayPartial', 'CoinCopyOfArrayOrZero') and len(a) >= 2:
            es = self.elem_size(c['m'])
            if es is None: raise Undecided('element size of %s' % c['m'])
            n = scale(a[1], es); ncp = scale(a[2], es) if base == 'CoinCopyOfArrayPartial' and len(a) == 3 and a[2][0] != 'px' else n
            out = []
            at = ('eq',) + _ord(a[0], NULL)
            for isnull in (True, False):
                if a[0] == NULL: t = s.copy() if isnull else None
                elif base_of(a[0])[0][0] in ('new', 'alloca'): t = None if isnull else s.copy()
                else: t = self.assume_atom(s, at, isnull)
                if t is None: continue
                if isnull:
                    if base == 'CoinCopyOfArrayOrZero':
                        nb = ('new', i.id, n, 'operator new[]'); self.track(t, nb, i); t.arr[nb] = (('fill', C(0), n),); t.env[i.id] = nb
                    else: t.env[i.id] = NULL
                else:
                    nb = ('new', i.id, n, 'operator new[]'); t.env[i.id] = nb; self.track(t, nb, i)
                    self.do_copy(t, nb, a[0], ncp, i)
                out.append(t)
            return out
        if base in ('CoinFillN', 'CoinZeroN', 'CoinZero', 'CoinFill'):
            es = self.elem_size(c['m'])
            b, o, ix = base_of(a[0])
            if base.endswith('N') and es and o == 0 and ix is None: s.arr[b] = (('fill', a[2] if base == 'CoinFillN' else C(0), scale(a[1], es)),)
            else: self.clobber(s, a[0], i)
            return None
        if base == 'clone' and a:
            env[i.id] = ('clone', a[0], i.id); self.track(s, env[i.id], i); s.log += (('clone', a[0], i.loc()),); return None
        if q in ('__cxa_allocate_exception',): env[i.id] = ('new', i.id, a[0], q); return None
        if q in ('__cxa_throw',): return None
        if q not in ('printf', 'fprintf', 'puts', 'sprintf'):
            for k, x in enumerate(a):
                if k > 0 or '::' not in q: self.escape(s, x)
        # member functions of library classes
        d = self.prog.decls.get(c['m']) if c['m'] else None
        dem = (d['dem'] if d else '')
        cls = q[:-len(base) - 2] if '::' in q else None
        if cls and a and a[0][0] != 'md':
            short = cls.split('::')[-1]
            params = dem[dem.rfind('(') + 1:dem.rfind(')')] if '(' in dem else ''
            cref = len(a) == 2 and re.fullmatch(r'[\w:<>, *]+ const&', params) is not None and self.same_type(params[:-7], cls, dem)
            size = self.prog.classes.get(short, {}).get('size')
            b, o, ix = base_of(a[0])
            if base == short or base.startswith('~'):
                if base.startswith('~'):
                    s.log += (('destroy', a[0], short, i.loc()),)
                    return None
                if ix is None:
                    if cref: s.cells[(b, o)] = ('obj', 'copy', short, a[1])
                    else: s.cells[(b, o)] = ('obj', 'ctor', short) + tuple(x if isc(x) or x[0] in ('arg', 'in') else ('x',) for x in a[1:])
                return None
            if base == 'operator=' :
                if cref and ix is None:
                    s.cells[(b, o)] = ('obj', 'copy', short, a[1])
                elif ix is None: s.cells[(b, o)] = ('mut', i.id)
                if i.ty: env[i.id] = a[0]
                return None
            if c['const'] or c['m'].startswith('_ZNK'):
                if i.ty: env[i.id] = ('mcall', q, self.content(s, a[0])) + tuple(a[1:])
                return None
            if ix is None and (b[0] in ('alloca', 'new') or not c['virt']):
                s.cells[(b, o)] = ('mut', i.id)
            for x in a[1:]:
                if base_of(x)[0][0] == 'alloca': self.clobber(s, x, i)
            if i.ty: env[i.id] = ('call', i.id, q)
            return None
        PURE = ('printf', 'fprintf', 'puts', 'putchar', 'strlen', 'strcmp', 'floor', 'ceil', 'fabs', 'sqrt', 'pow', 'log', 'exp', 'abs', 'CoinCpuTime', 'isnan',
                'CoinWallclockTime', 'sprintf', 'snprintf')
        if q not in PURE:
            for x in a:
                bx = base_of(x)[0]
                if bx[0] in ('alloca', 'new') or (bx[0] == 'arg' and x[0] in ('arg', 'p') and i.ty is None): self.clobber(s, x, i)
        if i.ty: env[i.id] = ('call', i.id, q)
        return None

    def same_type(self, t, cls, dem):
        t = t.strip(); short = t.split('::')[-1].split('<')[0] if '<' not in t else t.split('<')[0].split('::')[-1]
        return short == cls.split('::')[-1].split('<')[0]

    def content(self, s, p):
        b, o, ix = base_of(p)
        return s.cells.get((b, o), ('in', b, o)) if ix is None else ('ldx', b, o, ix)

def analyse(prog, fn, args=None):
    a = Analysis(prog, fn, args)
    return a.run(), a
