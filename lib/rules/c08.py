"""C08: separating changes no setting of the generator."""
import re, os
from model import AnalysisBroken, isconst, cval, VERIF
from access import spec, find, reads, root
from flow import flow, const_pointee
from paths import Paths

META = {'rule': 'For every generator (as dynamic type) and every separation entry point with all helpers inlined: each store, library call or mutable reference that can reach a setting is followed path by path; the setting must hold its entry value again at every return.',
        'assumptions': ['settings are the members behind the getters and setters of spec/settings.txt and the tolerances, switches and construction parameters of spec/constants.txt', 'exceptions and process exits are not returns']}

# statistics that separation is documented to update, not settings
COUNTERS = {'CglFlowCover': ('numFlowCuts_',)}

def offsets(prog, cls):
    """{offset: name} of the settings of a class, inherited ones included"""
    out = {}
    anc = prog.ancestors(cls)
    for l in spec():
        if l[1] not in anc: continue
        if l[0] in ('set', 'setn'):
            for g in l[3].split(','):
                if g.startswith('@'):
                    for o, s, n, t, w in prog.layout(cls):
                        if n == g[1:]: out.setdefault(o, g[1:])
                else:
                    n = find(prog, cls, g + '()')
                    if n:
                        for o in reads(prog, n, cls):
                            if isinstance(o, int): out.setdefault(o, g)
        elif l[0] == 'rec' and not l[2].startswith(l[1] + '('):
            for o, s, n, t, w in prog.layout(cls):
                if n.startswith(l[3] + '.'): out.setdefault(o, n)
    for l in open(os.path.join(VERIF, 'spec', 'constants.txt')):
        w = l.split()
        if not w or w[0] == '#' or w[0] not in anc: continue
        for m in w[1:]:
            for o, s, n, t, x in prog.layout(cls):
                if n == m: out.setdefault(o, m)
    return out

def writes(F, off, size):
    """{instruction id: ('store', value) | 'change'} for everything that may write [off, off+size) of *this"""
    out = {}
    def hit(v):
        return any(o == ('arg', 0) and x != '*' and off <= x < off + size for o, x in F.val(v))
    for i in F.fn.all():
        if i.op == 'store':
            if hit(i.a[1]): out[i.id] = ('store', i.a[0])
        elif i.op in ('call', 'invoke'):
            c, recv, args = F.callinfo(i); q = c['q']
            if q.startswith('llvm.'):
                if q.startswith('llvm.mem') and (hit(i.a[0]) or covers(F, i, off)): out[i.id] = 'change'
                continue
            if i.d.get('sret') and hit(i.a[0]): out[i.id] = 'change'
            if recv is not None and not c['const'] and hit(recv) and not (c['m'] in F.prog.fns) and not re.search(r'OsiCuts::(rowCutPtr|colCutPtr|begin|end)$', q): out[i.id] = 'change'
            for a, t in args:
                if hit(a) and not (t and const_pointee(t)) and q not in ('printf', 'fprintf'): out[i.id] = 'change'
    return out

def covers(F, i, off):
    n = i.a[2]
    if not isconst(n): return False
    return any(o == ('arg', 0) and x != '*' and x <= off < x + cval(n) for o, x in F.val(i.a[0]))

def restored(F, P, off, size, W):
    x = restored1(F, P, off, size, W, False)
    return x if x is None else restored1(F, P, off, size, W, True)

def restored1(F, P, off, size, W, corr, cap=150000):
    """None if the entry value is back at every return, otherwise the offending return; 'cap' if undecided"""
    fn = F.fn
    isload = {}
    for i in fn.all():
        if i.op == 'load' and len(F.val(i.a[0])) == 1 and list(F.val(i.a[0]))[0] == (('arg', 0), off): isload[i.id] = True
    if not W: return None
    # conditions that mention a load of the setting
    dep = set(isload)
    ch = True
    while ch:
        ch = False
        for i in fn.all():
            if i.id in dep or i.op not in ('phi', 'select', 'trunc', 'zext', 'sext', 'icmp', 'fcmp', 'xor', 'freeze'): continue
            ops = [x for x, b in i.d['in']] if i.op == 'phi' else i.a
            if any(isinstance(x, int) and x in dep for x in ops): dep.add(i.id); ch = True
    ent0 = frozenset(); st = [(0, None, 'E', ent0, frozenset())]; seen = set(st)
    relevant = set()
    for b in range(len(fn.blocks)):
        t = fn.blocks[b][-1]
        if t.op == 'br' and isinstance(t.d.get('cond'), int) and t.d['cond'] in dep: relevant.add(b)
    # values that can end up in a store to the setting or in a condition on its entry value
    consts = {cval(w[1]) for w in W.values() if w != 'change' and isconst(w[1])}
    tests = {}
    for b in relevant: tests.setdefault(P.cond(fn.blocks[b][-1].d['cond'])[0], set()).add(b)
    def useful(k):
        if corr and len(tests.get(k, ())) > 1: return True
        return k[0] == 'cmp' and k[1] in ('eq', 'oeq', 'ueq') and any(x[0] in ('c', 'f') and float(x[1]) in consts for x in (k[2], k[3]))
    live = {w[1] for w in W.values() if w != 'change' and isinstance(w[1], int)}
    for k in tests:
        if useful(k): live |= P.leaves(k)
    wl = list(live)
    while wl:
        x = wl.pop(); i = fn.ins[x]
        for y in ([v for v, _ in i.d['in']] if i.op == 'phi' else i.a if i.op in ('trunc', 'zext', 'freeze', 'icmp') else []):
            if isinstance(y, int) and y in dep and y not in live: live.add(y); wl.append(y)
    while st:
        if len(seen) > cap: return 'cap'
        b, pb, slot, ent, facts = st.pop()
        ent = set(ent); facts = dict(facts)
        for i in fn.blocks[b]:
            if i.op == 'phi': continue
            if i.id in isload:
                (ent.add if slot == 'E' else ent.discard)(i.id)
            elif i.op in ('trunc', 'zext', 'freeze') and isinstance(i.a[0], int) and i.a[0] in ent: ent.add(i.id)
            elif i.op == 'icmp' and i.d['p'] == 'ne' and isinstance(i.a[0], int) and i.a[0] in ent and isconst(i.a[1]) and not cval(i.a[1]) and fn.ins[i.a[0]].ty in ('i8', 'i1'): ent.add(i.id)
            elif i.id in W:
                w = W[i.id]
                if w == 'change': slot = 'X'
                else:
                    v = w[1]
                    if isinstance(v, int): slot = 'E' if v in ent else 'X'
                    elif isconst(v): slot = 'E' if ('=', cval(v)) in facts else 'X'
                    else: slot = 'X'
        t = fn.blocks[b][-1]
        if t.op == 'ret':
            if slot != 'E': return t
            continue
        nxt = []
        for s, k, tv in P.edges(b):
            f2 = dict(facts); ok = True
            if b in relevant and k is not None and useful(k):
                if k in f2 and f2[k] != tv: continue
                # only facts about the entry value survive
                lv = P.leaves(k)
                if lv and all(x in ent for x in lv):
                    f2[k] = tv
                    if k[0] == 'cmp' and tv and k[1] in ('eq', 'oeq', 'ueq'):
                        for x in (k[2], k[3]):
                            if x[0] in ('c', 'f'): f2[('=', float(x[1]) if x[0] == 'f' else x[1])] = True
                    if k[0] == 'i' and False: pass
            nxt.append((s, f2))
        for s, f2 in nxt:
            e2 = set(ent)
            for i in fn.blocks[s]:
                if i.op != 'phi': break
                if i.id in live:
                    v = [x for x, q in i.d['in'] if q == b]
                    (e2.add if v and isinstance(v[0], int) and v[0] in ent else e2.discard)(i.id)
            n = (s, None, slot, frozenset(e2 & live), frozenset(f2.items()))
            if n not in seen: seen.add(n); st.append(n)
    return None

def entries(prog):
    out = []
    for g in prog.generators():
        for n, f in prog.fns.items():
            if f.cls == g and re.match(r'(generateCuts\w*|generateCutsAndModify|snapshot|cliqueModel)$', f.qname.rsplit('::', 1)[1]): out.append((n, g))
    return sorted(out)

def run(prog, r):
    R = entries(prog)
    todo = [root(n, g) for n, g in R]
    for g in {g for _, g in R}:
        for l in spec():
            if l[0] in ('set', 'setn') and l[1] in prog.ancestors(g):
                todo += [root(n, g) for n in [find(prog, g, x + '()') for x in l[3].split(',') if not x.startswith('@')] if n]
    prog.inlined(todo)
    done = set()
    while R:
        n, g = R.pop(0)
        if (n, g) in done: continue
        done.add((n, g))
        F = flow(prog, n, g); P = Paths(F.fn)
        lay = {o: s for o, s, *_ in prog.layout(g)}
        for off, nm in sorted(offsets(prog, g).items()):
            if (prog.field(g, off)) in COUNTERS.get(g, ()): continue
            W = writes(F, off, lay.get(off, 1))
            x = restored(F, P, off, lay.get(off, 1), W)
            key = '%s:%s' % (F.fn.qname, prog.field(g, off))
            if x is None: r.ok('unchanged' if not W else 'restored', key)
            elif x == 'cap': r.undecided('restored', key)
            else:
                w = [F.fn.ins[k].loc() for k in W]
                r.bad('restored', '%s:%s' % (g, prog.field(g, off)), '%s can return (%s) with the setting %s::%s changed (written at %s)' % (F.fn.qname, x.loc(), g, prog.field(g, off), ', '.join(sorted(set(w))[:4])))
        # helpers that stay calls (recursion)
        for i in F.fn.all():
            c = F.fn.call(i) if i.op in ('call', 'invoke') else None
            if c and c['m'] in prog.fns and i.a and any(o == ('arg', 0) for o, x in F.val(i.a[0])) and not c['const'] and prog.fns[c['m']].cls == g: R.append((c['m'], g))
    r.need('unchanged', 150)
