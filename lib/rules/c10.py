"""C10: separation releases what it allocates, exactly once, and never touches it afterwards."""
import os, re, multiprocessing as mp
from model import AnalysisBroken
from flow import flow
from typestate import Life, DEL
from rules.c08 import entries
from access import root as rt_

META = {'rule': 'Path-wise life of every block: each allocation (new, new[], malloc family, objects a library call hands over) in the fully inlined body of every '
        'separation entry point is followed along every path of the control flow graph, with its holders (SSA values, exact memory slots, phis), the constants and repeated '
        'conditions that decide branches, until release or return. Violations: still held by nothing that outlives the call at a return or when the site allocates again (leak), '
        'released twice, accessed after release, released by the wrong operator or through an interior pointer, a member the destructor releases left pointing to a released block. '
        'Rule "weak": for blocks whose holder is a container or travels through counted structures of C-style helpers only the existence of a release is decided.',
        'assumptions': ['library functions neither keep nor release a pointer argument unless their name says so (assign*, insert of a pointer)',
                        'allocation does not fail; exception unwinding paths and exit/abort are not returns',
                        'a dynamic_cast of a block made in the call succeeds']}
def site(prog, i, f):
    return prog.fns[i.infn()].qname if i.infn() in prog.fns else f.qname

# C-style sources whose structures change hands with value-dependent protocols (counts, bit masks)
TRAVEL = ('Cgl012cut.cpp', 'CglTwomir.cpp', 'CglProbing.cpp')
def travels(L, A):
    i = L.fn.ins[A]
    if not i.loc().rsplit(':', 1)[0].endswith(TRAVEL): return False
    L.slice(A)
    if L.slotobj.get(('new', A)): return True
    # what the entry point itself releases does not travel on
    fs = {L.fn.ins[d].infn() for d in L.deallocators(A)}
    return bool(fs - {i.infn()}) and fs != {L.fn.name}

def kept(L, A):
    """may the block be held by something that outlives the call, or be given to a library object?"""
    L.slice(A)
    for i in L.fn.all():
        if i.op in ('call', 'invoke') and not L.fn.call(i)['q'].startswith('llvm.'):
            c, recv, args = L.F.callinfo(i)
            for a, t in args:
                if t and t.endswith(('*&', '**')) and c['m'] not in L.prog.fns:
                    for o, x in L.F.val(a):
                        if any(q in (('new', A), ('lib', A)) for q, y in L.F.content(o, x)): return True
                if t and t.endswith('*') and c['q'].startswith(('OsiCuts::insert', 'std::')) and any(o in (('new', A), ('lib', A)) for o, x in L.F.val(a)): return True
    if any(L.F.root(o) is not None for o in L.slotobj.get(('new', A), set()) | L.slotobj.get(('lib', A), set())): return True
    return False

def owned(prog, cls):
    """offsets of the members whose block the destructor of the class releases, and how"""
    out = {}
    for n, f in prog.fns.items():
        if f.cls == cls and f.qname.rsplit('::', 1)[1].startswith('~'):
            F = flow(prog, n, cls)
            for i in F.fn.all():
                if i.op in ('call', 'invoke'):
                    c = F.fn.call(i)
                    if c['q'] in DEL or c.get('dtor'):
                        for o, x in F.val(i.a[0]):
                            if o[0] == 'mem' and o[1] == ('arg', 0) and x == 0: out[o[2]] = DEL.get(c['q'], 'obj')
    return out

SETUP = re.compile(r'(refreshSolver|createRowList|createCliqueList|setTestedRowIndices|passIn\w*|setProbingInfo|saveStuff)$')
def setup(prog):
    """operations that replace the stored problem data of a generator"""
    return sorted((n, f.cls) for n, f in prog.fns.items() if f.cls in prog.classes and prog.classes[f.cls]['repo'] and SETUP.match(f.qname.rsplit('::', 1)[-1]))

_prog = None
def work(a):
    n, cls = a; prog = _prog
    F = flow(prog, n, cls); f = F.fn; own = owned(prog, cls); L = Life(prog, F, owned=own); out = []
    num = {}
    for A in sorted(L.site):
        ins = f.ins[A]; done = set()
        # which allocation of its function this is, in source order
        w = site(prog, ins, f); l = num.setdefault(w, []); l.append(A)
        if travels(L, A):
            res, why = [], 'travels between helpers'
        else: res, why = L.follow(A)
        if why and not L.deallocators(A) and not kept(L, A): res.append(('leak', ins, 'is never released'))
        weak = bool(why)
        if why and not res and L.deallocators(A): why = ''
        for kd, i, txt in res:
            if (kd, i.id) in done: continue
            done.add((kd, i.id))
            out.append(('bad', kd, '%s#%d:%s:%s' % (w, len(l), site(prog, i, f), kd), '%s: the block allocated at %s %s' % (i.loc(), ins.loc(), txt)))
        if why: out.append(('und', 'life', '%s %s' % (ins.loc(), why)))
        elif not res: out.append(('ok', 'weak' if weak else 'life', ins.loc()))
    for off, kd0 in sorted(own.items(), key=str):
        A = ('mem', ('arg', 0), off)
        L.memkind = {A: kd0}
        wr = [i for i in f.all() if i.op == 'store' and any(o == ('arg', 0) and x in (off, '*') for o, x in L.F.val(i.a[1]))]
        rel = L.deallocators(A)
        if not wr and not rel: continue
        res, why = L.follow(A)
        # released on some paths: whether the member can hold a block on the others depends on what it means there
        if rel: res = [x for x in res if x[0] != 'leak']
        nm = next((x[2] for x in prog.layout(cls) if x[0] == off), str(off)); done = set()
        for kd, i, txt in res:
            if (kd, i.id) in done: continue
            done.add((kd, i.id))
            out.append(('bad', kd, '%s::%s:%s:%s' % (cls, nm, site(prog, i, f), kd), '%s: the block that %s::%s held on entry of %s %s' % (i.loc(), cls, nm, f.qname, txt)))
        if why and not res: out.append(('und', 'member', '%s::%s in %s: %s' % (cls, nm, f.qname, why)))
        elif not res: out.append(('ok', 'member', '%s::%s in %s' % (cls, nm, f.qname)))
    return cls, f.qname, out

def run(prog, r):
    global _prog
    R = entries(prog) + setup(prog)
    if os.environ.get('CGL_ONLY'): R = [x for x in R if x[1] in os.environ['CGL_ONLY'].split(',')]
    prog.inlined([rt_(n, g) for n, g in R])
    _prog = prog
    R.sort(key=lambda x: x[1] not in ('CglProbing', 'CglTwomir', 'CglZeroHalf'))
    with mp.Pool(8) as pool:
        for cls, q, out in pool.imap(work, R, 1):
            for o in out:
                if o[0] == 'bad': r.bad(*o[1:])
                elif o[0] == 'und': r.undecided(*o[1:])
                else: r.ok(*o[1:])
    if not os.environ.get('CGL_ONLY'): r.need('life', 600); r.need('member', 60)
