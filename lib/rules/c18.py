"""C18: a clique entry keeps its column and its direction apart."""
from model import AnalysisBroken, isconst, cval

META = {'rule': 'Abstract interpretation of the four accessors of CliqueEntry over symbolic bits: each bit of a value is a constant, a named input bit, or unknown. The query after a write (of the same or of the other part) must deliver exactly the '
                'input bits that were written, or those that were there before, bit by bit; this covers every column number and both directions at once. No other storage is written.',
        'assumptions': ['column numbers are not negative (bit 31 of a sequence is zero)']}
TOP = '?'
W = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}

class Fail(Exception): pass

def bits(v, w): return tuple((v >> k) & 1 for k in range(w))

def b_and(x, y): return 0 if x == 0 or y == 0 else y if x == 1 else x if y == 1 or x == y else TOP
def b_or(x, y): return 1 if x == 1 or y == 1 else y if x == 0 else x if y == 0 or x == y else ('mix', x, y) if TOP not in (x, y) and x[0] in 'es' and y[0] in 'es' else TOP
def b_not(x): return 1 - x if x in (0, 1) else ('not',) + x[1:] if isinstance(x, tuple) and x[0] == 'not' and len(x) == 1 else TOP
def b_xor(x, y): return x ^ y if x in (0, 1) and y in (0, 1) else y if x == 0 else x if y == 0 else 0 if x == y and x != TOP else TOP

def run_fn(prog, f, mem, args):
    """all results of the function: [(return bits or None, memory bits)]; memory: {byte offset of the entry: bits of the word}"""
    out = []
    def val(env, v, w=32):
        if isinstance(v, int): return env[v]
        if isinstance(v, dict):
            if 'a' in v: return args[v['a']]
            if 'c' in v: return bits(v['c'], v.get('w', w))
            if 'null' in v: return bits(0, 64)
        raise Fail('operand')
    def addr(env, v):
        if isinstance(v, dict) and v.get('a') == 0: return 0
        if isinstance(v, int) and isinstance(env.get(v), tuple) and env[v] and env[v][0] == 'ptr': return env[v][1]
        raise Fail('address')
    def step(b, pb, env, mem, n):
        if n > 200: raise Fail('loop')
        new = {}
        for i in f.blocks[b]:
            if i.op == 'phi':
                x = [v for v, q in i.d['in'] if q == pb]
                new[i.id] = val(env, x[0], W.get(i.ty, 32))
        env = dict(env); env.update(new)
        for i in f.blocks[b]:
            op = i.op; w = W.get(i.ty)
            if op == 'phi' or op == 'dbg': continue
            if op == 'load':
                a = addr(env, i.a[0])
                if (a, i.d.get('sz')) not in mem: raise Fail('load of another place')
                env[i.id] = mem[(a, i.d['sz'])][:w or 32]
            elif op == 'store':
                a = addr(env, i.a[1]); sz = i.d['sz']
                if (a, sz) not in mem: raise Fail('store to another place')
                mem = dict(mem); mem[(a, sz)] = val(env, i.a[0])
            elif op == 'getelementptr':
                if i.d['v']: raise Fail('address')
                env[i.id] = ('ptr', addr(env, i.d['b']) + i.d['o'])
            elif op in ('and', 'or', 'xor'):
                g = {'and': b_and, 'or': b_or, 'xor': b_xor}[op]
                env[i.id] = tuple(g(x, y) for x, y in zip(val(env, i.a[0]), val(env, i.a[1])))
            elif op in ('add', 'sub', 'mul'):
                x, y = val(env, i.a[0]), val(env, i.a[1])
                if op == 'add' and all(p == 0 or q == 0 for p, q in zip(x, y)): env[i.id] = tuple(b_or(p, q) for p, q in zip(x, y))
                elif all(p in (0, 1) for p in x + y):
                    X = sum(p << k for k, p in enumerate(x)); Y = sum(p << k for k, p in enumerate(y))
                    env[i.id] = bits({'add': X + Y, 'sub': X - Y, 'mul': X * Y}[op] & ((1 << len(x)) - 1), len(x))
                else: env[i.id] = (TOP,) * len(x)
            elif op in ('shl', 'lshr', 'ashr'):
                x = val(env, i.a[0]); s = val(env, i.a[1])
                if not all(p in (0, 1) for p in s): raise Fail('shift')
                s = sum(p << k for k, p in enumerate(s)); n_ = len(x)
                env[i.id] = ((0,) * s + x)[:n_] if op == 'shl' else (x[s:] + ((0,) if op == 'lshr' else (x[-1],)) * s)[:n_]
            elif op in ('zext', 'sext', 'trunc', 'bitcast', 'freeze'):
                x = val(env, i.a[0]); n_ = w or len(x)
                env[i.id] = (x + ((x[-1],) if op == 'sext' else (0,)) * n_)[:n_]
            elif op == 'icmp':
                x, y = val(env, i.a[0]), val(env, i.a[1]); env[i.id] = (cmp(i.d['p'], x, y),)
            elif op == 'select':
                c = val(env, i.a[0])[0]; x, y = val(env, i.a[1], w), val(env, i.a[2], w)
                env[i.id] = x if c == 1 else y if c == 0 else tuple(p if p == q else c if (p, q) == (1, 0) and c != TOP else TOP for p, q in zip(x, y))
            elif op == 'br':
                if len(i.d['t']) < 2: return step(i.d['t'][0], b, env, mem, n + 1)
                c = val(env, i.d['cond'])[0]
                if c == 1: return step(i.d['t'][0], b, env, mem, n + 1)
                if c == 0: return step(i.d['t'][1], b, env, mem, n + 1)
                if c == TOP: raise Fail('branch')
                for t, x in ((i.d['t'][0], 1), (i.d['t'][1], 0)):
                    put = lambda z: tuple(x if q == c else q for q in z) if z and z[0] != 'ptr' else z
                    step(t, b, {p: put(z) for p, z in env.items()}, {p: put(z) for p, z in mem.items()}, n + 1)

                return
            elif op == 'ret':
                out.append([val(env, i.a[0]) if i.a else None, mem, {}]); return
            else: raise Fail(op)
    step(0, None, {}, mem, 0)
    return out

def cmp(p, x, y):
    if p in ('eq', 'ne'):
        d = [b_xor(a, b) for a, b in zip(x, y)]
        if any(a == 1 for a in d): r = 0
        elif all(a == 0 for a in d): r = 1
        else:
            u = [a for a in d if a != 0]
            pairs = [(a, b) for a, b in zip(x, y) if b_xor(a, b) != 0]
            if len(u) == 1 and u[0] != TOP:
                # differs exactly if that bit does: eq is its negation
                if p == 'ne': return u[0]
                return TOP
            # equality with a constant whose only open bit is required to be one
            if len(pairs) == 1 and 1 in pairs[0]:
                a = [z for z in pairs[0] if z != 1]
                if a and a[0] != TOP: return a[0] if p == 'eq' else TOP
            return TOP
        return r if p == 'eq' else 1 - r
    # sign tests
    if p == 'slt' and all(b == 0 for b in y): return x[-1]
    if p == 'sgt' and all(b == 1 for b in x) is False and all(b == 1 for b in y): return TOP if x[-1] not in (0, 1) else 1 - x[-1]
    return TOP

def run(prog, r):
    fn = {}
    for n, f in prog.fns.items():
        if f.qname in ('sequenceInCliqueEntry', 'setSequenceInCliqueEntry', 'oneFixesInCliqueEntry', 'setOneFixesInCliqueEntry'): fn[f.qname] = f
    if len(fn) != 4: raise AnalysisBroken('accessors of CliqueEntry not found')
    E = tuple(('e', k) for k in range(32)); S = tuple(('s', k) for k in range(31)) + (0,); 
    word = {(0, 4): E}
    def sub(v, s):
        return v if v is None else tuple(s.get(b, b) if isinstance(b, tuple) else b for b in v)
    def get(name, mem):
        res = run_fn(prog, fn[name], mem, [None])
        if len(res) != 1: raise Fail('several paths')
        return res[0][0]
    def cases(name, mem, arg):
        """results of a writer, one per direction value if the writer branches on it"""
        return run_fn(prog, fn[name], mem, [None, arg])
    def check(what, f, got, want):
        if got is None: r.undecided('entry', what); return
        w = tuple(want) + (0,) * (len(got) - len(want))
        if got == w: r.ok('entry', what)
        elif any(g == TOP for g, x in zip(got, w) if g != x): r.undecided('entry', what)
        else:
            k = [k for k in range(len(got)) if got[k] != w[k]][0]
            r.bad('entry', what, '%s: %s: %s: bit %d of the answer is %s instead of %s' % (f.where(), f.qname, what, k, say(got[k]), say(w[k])))
    def attempt(what, g):
        try: g()
        except Fail as e: r.undecided('entry', '%s: %s' % (what, e))
    def seqseq():
        for res in cases('setSequenceInCliqueEntry', word, S): check('the column read back is the column stored', fn['setSequenceInCliqueEntry'], get('sequenceInCliqueEntry', res[1]), S)
    def seqone():
        before = get('oneFixesInCliqueEntry', word)
        for res in cases('setSequenceInCliqueEntry', word, S): check('storing a column keeps the direction', fn['setSequenceInCliqueEntry'], get('oneFixesInCliqueEntry', res[1]), before)
    def oneone():
        for b in (0, 1):
            for res in cases('setOneFixesInCliqueEntry', word, (b,)): check('the direction read back is the direction stored (%d)' % b, fn['setOneFixesInCliqueEntry'], get('oneFixesInCliqueEntry', res[1]), (b,))
    def oneseq():
        before = get('sequenceInCliqueEntry', word)
        for b in (0, 1):
            for res in cases('setOneFixesInCliqueEntry', word, (b,)): check('storing a direction (%d) keeps the column' % b, fn['setOneFixesInCliqueEntry'], get('sequenceInCliqueEntry', res[1]), before)
    for what, g in (('column', seqseq), ('column/direction', seqone), ('direction', oneone), ('direction/column', oneseq)): attempt(what, g)
    r.need('entry', 4)

def say(b): return str(b) if b in (0, 1) else 'two bits joined' if b[0] == 'mix' else 'bit %d of %s' % (b[1], {'e': 'the old entry', 's': 'the stored column'}[b[0]])
