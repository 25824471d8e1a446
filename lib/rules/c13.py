"""C13: what a generator declares about itself is true."""
import re
from model import AnalysisBroken
from flow import flow
from sccp import Sccp, k
from rules.c08 import entries
from rules.c07 import tree_args, info, site
from access import root as rt_, find, run1, query, reads, THIS

META = {'rule': 'needsOptimalBasis() and mayGenerateRowCutsInTree() are evaluated as functions of the members they read. A generator that may answer "no basis needed" must contain no call on the caller\'s solver '
        'that reads a basis, factorization or tableau on any path of its separation entry points (helpers inlined); for every state in which it answers "no row cuts in the tree", '
        'conditional constant propagation with info.inTree fixed to true (and the members the answer depends on fixed to that state) must leave every insertion of a row cut unreachable.',
        'assumptions': ['the simplex-dependent part of OsiSolverInterface is the list in the rule', 'a generator object called by another one answers for itself']}
BASIS = re.compile(r'::(getWarmStart|getPointerToWarmStart|getBasics|getBasisStatus|getBInv\w*|enableFactorization|disableFactorization|enableSimplexInterface|getReducedGradient|setBasisStatus|getBasis)$')

def answers(prog, cls, name):
    n = find(prog, cls, name + '()')
    if not n: return None, set()
    rd = reads(prog, n, cls)
    return n, rd

def isarg(F, v, k_):
    return any(o[0] == 'arg' and o[1] == k_ for o, x in F.val(v))

def rowinserts(F):
    """calls that add a row cut to a collection handed in by the caller"""
    out = []
    for i in F.fn.all():
        if i.op in ('call', 'invoke'):
            q = F.fn.call(i)['q']; c = F.fn.call(i)
            if re.match(r'OsiCuts::insert', q) and not re.search(r'OsiColCut', c.get('dem', '') or q):
                if any(F.root(o) is not None for o, x in F.val(i.a[0])) and not empty(F, i): out.append(i)
    return out

def empty(F, i):
    """the inserted object never gets coefficients: the mark of an infeasible problem, not a row"""
    ob = {o for o, x in F.val(i.a[1])}
    if not ob or any(o[0] not in ('alloca', 'new') for o in ob): return False
    for j in F.fn.all():
        if j.op in ('call', 'invoke'):
            q = F.fn.call(j)['q']
            if re.search(r'::(setRow|mutableRow|operator=)$', q) or re.search(r'::OsiRowCut$', q) and len(j.a) > 1:
                if any(o in ob for o, x in F.val(j.a[0])): return False
    return True

def run(prog, r):
    R = entries(prog); prog.inlined([rt_(n, g) for n, g in R])
    L = {n: (o, s) for o, s, n, t, w in prog.layout('CglTreeInfo')}
    for n, cls in R:
        nm = prog.fns[n].qname.rsplit('::', 1)[1]
        if not nm.startswith('generateCuts'): continue
        F = flow(prog, n, cls); f = F.fn
        # --- basis
        g, rd = answers(prog, cls, 'needsOptimalBasis')
        if not g: r.undecided('basis', '%s: needsOptimalBasis not found' % cls)
        else:
            res = query(prog, g, cls, {})
            if res == {1} or res == {True}: r.ok('basis', '%s::%s declares that it needs a basis' % (cls, nm))
            else:
                use = []
                for i in f.all():
                    if i.op in ('call', 'invoke'):
                        q = f.call(i)['q']
                        if BASIS.search(q) and any(o[0] == 'arg' for o, x in F.val(i.a[1] if f.call(i).get('sret') else i.a[0])): use.append(i)
                for i in use: r.bad('basis', '%s:%s:%s' % (cls, site(prog, i, f), f.call(i)['q']), '%s: %s::%s calls %s on the solver although needsOptimalBasis() can answer false' % (i.loc(), cls, nm, f.call(i)['q']))
                if not use: r.ok('basis', '%s::%s uses no basis' % (cls, nm))
        # --- row cuts in the tree
        g, rd = answers(prog, cls, 'mayGenerateRowCutsInTree')
        if not g: r.undecided('tree', '%s: mayGenerateRowCutsInTree not found' % cls); continue
        res = query(prog, g, cls, {})
        if res in ({1}, {True}): r.ok('tree', '%s::%s may generate row cuts anywhere' % (cls, nm)); continue
        A = tree_args(f)
        if len(rd) > 1: r.undecided('tree', '%s: answer depends on several members' % cls); continue
        off = next(iter(rd)) if rd else None
        if off is not None and changed(F, off): r.undecided('tree', '%s::%s adjusts the member its answer depends on' % (cls, nm)); continue
        ins = rowinserts(F)
        for v in (range(-4, 6) if off is not None else (0,)):
            env = {('in', THIS, off): v} if off is not None else {}
            if True in {bool(x) for x in query(prog, g, cls, env)}: continue
            sel = {}
            for i in f.all():
                if i.op != 'load': continue
                t = F.val(i.a[0])
                if t and all(info(F, o, A) and x == L['inTree'][0] for o, x in t): sel[i.id] = k(1)
                if off is not None and t and all(o == ('arg', 0) and x == off for o, x in t) : sel[i.id] = k(v)
            S = Sccp(f, lambda i: sel.get(i.id))
            for i in ins:
                if i.blk in S.blk: r.bad('tree', '%s:%s' % (cls, site(prog, i, f)), '%s: %s::%s can insert a row cut inside the tree although mayGenerateRowCutsInTree() answers false%s' % (i.loc(), cls, nm, ' (member at offset %d = %d)' % (off, v) if off is not None else ''))
            r.ok('tree', '%s::%s' % (cls, nm))
    r.need('basis', 14); r.need('tree', 14)

def changed(F, off):
    return any(i.op == 'store' and any(o == ('arg', 0) and x in (off, '*') for o, x in F.val(i.a[1])) for i in F.fn.all())
