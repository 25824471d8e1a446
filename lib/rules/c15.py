"""C15: work areas of a generator carry nothing from one separation call to the next."""
import re
from model import AnalysisBroken, isconst, cval
from access import root as rt_
from flow import flow, const_pointee
from paths import Paths
from copies import is_scratch, functions, summary, field_states
from cells import NULL, isc
from rules.c08 import entries
from walk import Walk

META = {'rule': 'Forward must-write dataflow over every separation entry point with all helpers inlined, one obligation per read of a member that copies need not carry (the work areas of the copy rules): '
                'on every path from the entry to the read the member has been written in this very call; a read on a path whose repeated branch conditions contradict each other does not count.',
        'assumptions': ['exceptions and process exits are not returns']}

# further work areas (copied, but meant to be filled by every call)
WORK = {
    'CglGMI': ('nrow', 'ncol', 'colLower', 'colUpper', 'rowLower', 'rowUpper', 'rowRhs', 'isInteger', 'cstat', 'rstat', 'solver', 'xlp', 'rowActivity', 'byRow', 'byCol', 'f0', 'f0compl', 'ratiof0compl'),
    'CglClique': ('cl_indices', 'cl_length'),
}
# exempt from this rule: kept between calls on purpose
KEPT = {
    'Cgl012Cut': ('inp_ilp', 'p_ilp', 'iter', 'maxgap', 'sep_iter', 'vlog', 'switchEvenWeakBuffer_', 'switchOddWeakBuffer_', 'typeEvenWeakBuffer_', 'typeOddWeakBuffer_', 'varsToWeakBuffer_'),  # built by refreshSolver, search history, growing buffers
    'CglProbing': ('minR_', 'maxR_', 'markRow_', 'markColumn_', 'lookColumn_', 'lookRow_'),     # created on demand, null between calls
}

def areas(prog, g):
    out = {}
    anc = [g] + list(prog.ancestors(g))
    for o, s, nm, t, w in prog.layout(g):
        leaf = nm.split('.')[-1]
        if leaf in KEPT.get(w, ()) or any(leaf in KEPT.get(c, ()) for c in (g,)): continue
        if is_scratch(g, nm, w) or any(nm in WORK.get(c, ()) for c in anc): out[o] = (nm, s)
    return out

def site(prog, i, f):
    return prog.fns[i.infn()].qname if i.infn() in prog.fns else f.qname

def events(F, f, offs):
    """{block: [(instruction, 'def'|'use', offset)]}"""
    me = ('arg', 0)
    L = sorted(offs)
    def at(v):
        """member offsets an address stands for, exact?"""
        t = F.val(v)
        hit = [x for o, x in t if o == me and x != '*']
        return hit, len(t) == 1
    def within(x, n=1):
        return [o for o in L if x <= o < x + n or o <= x < o + offs[o][1]]
    out = {}
    for b, B in enumerate(f.blocks):
        ev = []
        for i in B:
            if i.op == 'load':
                h, ex = at(i.a[0])
                for x in h:
                    for o in within(x): ev.append((i, 'use', o))
            elif i.op == 'store':
                h, ex = at(i.a[1])
                if ex:
                    for x in h:
                        for o in within(x): ev.append((i, 'def', o))
            elif i.op in ('call', 'invoke'):
                c, recv, args = F.callinfo(i); q = c['q']
                if q.startswith('llvm.'):
                    if q.startswith('llvm.mem'):
                        n = cval(i.a[2]) if isconst(i.a[2]) else 1
                        if not q.startswith('llvm.memset'):
                            for x in at(i.a[1])[0]:
                                for o in within(x, n): ev.append((i, 'use', o))
                        h, ex = at(i.a[0])
                        if ex:
                            for x in h:
                                for o in within(x, n):
                                    if x <= o and o + offs[o][1] <= x + n: ev.append((i, 'def', o))
                    continue
                if i.d.get('sret'):
                    h, ex = at(i.a[0])
                    if ex:
                        for x in h:
                            for o in within(x): ev.append((i, 'def', o))
                if recv is not None:
                    short = q.rsplit('::', 1)[-1]
                    h, ex = at(recv)
                    for x in h:
                        for o in within(x): ev.append((i, 'def' if ex and short in ('operator=', 'clear', 'assign') else 'use', o))
                for a, t in args:
                    h, ex = at(a)
                    out_ = ex and t and t.endswith('&') and not const_pointee(t) and q.rsplit('::', 1)[-1].startswith('get')
                    for x in h:
                        for o in within(x): ev.append((i, 'def' if out_ else 'use', o))
        if ev: out[b] = ev
    return out

def run(prog, r):
    # the public calls: those that are given the solver
    R = [(n, g) for n, g in entries(prog) if 'OsiSolverInterface' in prog.fns[n].dem]
    prog.inlined([rt_(n, g) for n, g in R])
    # members that every call leaves null (and that are null in a new object): what a later call finds is known
    dirty = {}; needed = {}
    for n, g in R:
        offs = areas(prog, g)
        if not offs: continue
        F = flow(prog, n, g); f = F.fn
        evs = events(F, f, offs)
        dirty.setdefault(g, set()).update(o for o in offs if left(F, f, evs, o))
    for n, g in R:
        offs = areas(prog, g)
        if not offs: continue
        F = flow(prog, n, g); f = F.fn; P = Paths(f)
        evs = events(F, f, offs)
        reset = {o for o in offs if o not in dirty[g]}
        W = Walk(F, f, P, evs, reset)
        inn = {b: set(offs) for b in range(len(f.blocks))}; inn[0] = set()
        order = f.rpo()
        gen = {b: {o for i, k, o in e if k == 'def'} for b, e in evs.items()}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == 0: continue
                ps = f.pred[b]
                s = set.intersection(*[inn[p] | gen.get(p, set()) for p in ps]) if ps else set(offs)
                if s != inn[b]: inn[b] = s; ch = True
        for b in order:
            s = set(inn[b])
            for i, k, o in evs.get(b, ()):
                if k == 'def': s.add(o); continue
                what = '%s reads %s' % (site(prog, i, f), offs[o][0])
                if o in s: r.ok('rewritten', what); continue
                if o in reset:
                    needed.setdefault(g, {})[o] = offs[o]
                    r.ok('left-null', what); continue
                p = avoid(W, o, i)
                if p is None: r.ok('rewritten', what)
                elif p == 'cap': r.undecided('rewritten', what)
                else: r.bad('rewritten', '%s:%s' % (site(prog, i, f), offs[o][0]), '%s: %s reads the work area %s, which this call of %s has not written on some path: it still holds what an earlier call left there' % (i.loc(), site(prog, i, f), offs[o][0], f.qname))
        r.ok('entry', f.qname)
    # and they are null in every new object
    for g, m in sorted(needed.items()):
        fs = functions(prog, g)
        for n in fs['ctor'] + fs['copy']:
            ex, a, fn = summary(prog, n)
            if a is None: r.undecided('born-null', fn.dem); continue
            any_i = next(iter(fn.ins.values()))
            for o, (nm, s) in sorted(m.items()):
                vs = {v for e in ex if e.kind == 'ret' for st, v in field_states(a, e.st, ('arg', 0, 'obj'), o, s, any_i)}
                bad = [v for v in vs if v != NULL and not (isc(v) and not v[1])]
                if not bad: r.ok('born-null', '%s %s' % (fn.dem, nm))
                elif any(v == ('uninit',) or isc(v) or (v[0] == 'in' and v[1] == ('arg', 0, 'obj')) for v in bad): r.bad('born-null', '%s:%s' % (fn.dem, nm), '%s: %s leaves %s not null, and separation looks at it before it writes it' % (fn.where(), fn.dem, nm))
                else: r.undecided('born-null', '%s %s' % (fn.dem, nm))
    r.need('rewritten', 50)

def avoid(W, o, use):
    """is there a consistent path from the entry to the use without a write of o?"""
    stop = {}
    for b, e in W.evs.items():
        for i, k, x in e:
            if k == 'def' and x == o: stop.setdefault(b, i.pos)
    if use.blk in stop and stop[use.blk] < use.pos: return None
    return W.run(use.blk, stop)

def left(F, f, evs, o):
    """can a call return with the member holding anything but null/zero or its entry value? (last write on some path is something else)"""
    last = {}
    for b, e in evs.items():
        for i, k, x in e:
            if k == 'def' and x == o: last[b] = i
    inn = {b: set() for b in range(len(f.blocks))}; inn[0] = {'E'}
    def out(b):
        if b not in last: return inn[b]
        i = last[b]
        z = (i.op == 'store' and isconst(i.a[0]) and ('null' in i.a[0] or not cval(i.a[0]))) or (i.op == 'call' and f.call(i)['q'].startswith('llvm.memset') and isconst(i.a[1]) and not cval(i.a[1]))
        return {'0'} if z else {'X'}
    ch = True
    while ch:
        ch = False
        for b in f.rpo():
            s = set(inn[b])
            for p in f.pred[b]: s |= out(p)
            if s != inn[b]: inn[b] = s; ch = True
    return any(f.blocks[b][-1].op == 'ret' and 'X' in out(b) for b in f.rpo())
