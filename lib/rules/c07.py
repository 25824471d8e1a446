"""C07: a cut is marked globally valid exactly when the caller's tree information (or the generator's own flag) asks for it."""
import re
from model import AnalysisBroken, isconst, cval
from flow import flow
from paths import Paths
from sccp import Sccp, k
from rules.c08 import entries
from access import root as rt_

META = {'rule': 'Conditional constant propagation over every separation entry point with all helpers inlined, once per combination of info.inTree, info.pass and option bits 4/8/16 (and of a generator\'s own global flag): the calls that mark a cut must be unreachable in every combination that does not ask for global cuts; where they are reachable, the marking loop must start at the number of cuts on entry, end at the final number and follow every insertion.',
        'assumptions': ['a new OsiRowCut/OsiColCut is not globally valid', 'cuts handed in by the user (CglStored) keep the mark the user gave them']}
# generators that mark a cut because of a setting of their own: class -> (member, bit)
OWN = {'CglZeroHalf': ('flags_', 1)}
# the mark may be given outside the tree without being asked for: Twomir's cuts from the original problem
ROOT_ONLY = {'CglTwomir': 'originalSolver_'}
# generators that mark only some of their row cuts when asked
PARTIAL = {'CglProbing', 'CglFakeClique'}

def tree_args(f):
    """{argument index: True} of the CglTreeInfo parameters"""
    sh = 1 if f.args and f.args[0].get('sret') else 0
    return [j + sh for j, t in enumerate(f.ptypes[1:]) if re.match(r'(const )?CglTree(Probing)?Info\b', t)]

def marks(F):
    out = []
    for i in F.fn.all():
        if i.op in ('call', 'invoke'):
            q = F.fn.call(i)['q']
            if re.search(r'::setGloballyValid(AsInteger)?$', q):
                a = i.a[-1] if len(i.a) > 1 else None
                if a is not None and isconst(a) and not cval(a): continue
                out.append(i)
    return out

def inserts(F):
    return [i for i in F.fn.all() if i.op in ('call', 'invoke') and re.match(r'OsiCuts::insert', F.fn.call(i)['q'])]

def run(prog, r):
    L = {n: (o, s) for o, s, n, t, w in prog.layout('CglTreeInfo')}
    nmark = 0
    R = entries(prog); prog.inlined([rt_(n, g) for n, g in R])
    for n, cls in R:
        nm = prog.fns[n].qname.rsplit('::', 1)[1]
        F = flow(prog, n, cls); f = F.fn; M = marks(F)
        if not M:
            r.ok('never marked', '%s::%s' % (cls, nm)); continue
        nmark += 1
        A = tree_args(f)
        own = OWN.get(cls); ownoff = prog.field_off(cls, own[0]) if own else None
        root = prog.field_off(cls, ROOT_ONLY[cls]) if cls in ROOT_ONLY else None
        # loads of the fields that are fixed per combination
        sel = {}
        for i in f.all():
            if i.op != 'load': continue
            t = F.val(i.a[0])
            if not t: continue
            for what in ('inTree', 'pass', 'options'):
                if all(info(F, o, A) and x == L[what][0] for o, x in t): sel[i.id] = what
            if own and all(o == ('arg', 0) and x == ownoff for o, x in t): sel[i.id] = 'own'
            if root is not None and all(o == ('arg', 0) and x == root for o, x in t): sel[i.id] = 'root'
        stores = {}
        for i in f.all():
            if i.op == 'store':
                for o, x in F.val(i.a[1]):
                    if o[0] == 'alloca': stores.setdefault((o, x), []).append(i.a[0])
        def through(v):
            while isinstance(v, int) and v not in sel and f.ins[v].op in ('trunc', 'zext', 'sext', 'freeze'): v = f.ins[v].a[0]
            return sel.get(v) if isinstance(v, int) else None
        again = True
        while again:
            again = False
            for i in f.all():
                if i.op != 'load' or i.id in sel: continue
                t = F.val(i.a[0])
                if not t or any(o[0] != 'alloca' or x == '*' for o, x in t): continue
                w = {through(v) for q in t for v in stores.get(q, [None]) + stores.get((q[0], '*'), [])}
                if len(w) == 1 and None not in w: sel[i.id] = w.pop(); again = True
        P = Paths(f); seenpos = set()
        for inTree in (0, 1):
          for ps in (0, 1):
            for o4 in (0, 4):
              for o8 in (0, 8):
                for o16 in (0, 16):
                  for ow in ((0, 1) if own else (0,)):
                    for rt in ((0, 1) if root is not None else (0,)):
                        opt = (28, o4 | o8 | o16)
                        fx = {'inTree': k(inTree), 'pass': k(ps), 'options': opt, 'own': (own[1], ow * own[1]) if own else None,
                              'root': k(0) if not rt else (1, 0)}
                        S = Sccp(f, lambda i: fx[sel[i.id]] if i.id in sel else None)
                        asked = (not inTree and (o4 or (o8 and not ps))) or o16 or ow or (rt and not inTree)
                        must = (not inTree and (o4 or (o8 and not ps))) if not own else ow
                        case = 'inTree=%d pass=%d options=%d%s' % (inTree, ps, opt[1], ' own flag=%d' % ow if own else '')
                        for m in M:
                            if m.blk in S.blk:
                                if not asked: r.bad('not asked', '%s:%s' % (cls, site(prog, m, f)), '%s: %s::%s marks a cut globally valid although it was not asked to (%s)' % (m.loc(), cls, nm, case))
                                else: r.ok('not asked')
                            else: r.ok('not asked')
                        if must and not rt and cls not in PARTIAL:
                            if not any(m.blk in S.blk for m in M):
                                r.bad('asked', '%s:%s' % (cls, nm), '%s: no cut is marked globally valid although %s asks for it' % (f.where(), case))
                            else:
                                for i in inserts(F):
                                    if i.blk in S.blk: positive(prog, r, F, P, S, cls, nm, i, M, case, seenpos, own)
    r.need('not asked', 300); r.need('never marked', 8)
    if nmark < 7: raise AnalysisBroken('only %d entry points mark cuts' % nmark)

def info(F, o, A):
    if o[0] == 'arg' and o[1] in A: return True
    if o[0] == 'alloca': return o in copies(F, A)
    return False

def copies(F, A):
    """local CglTreeInfo objects that are plain copies of the argument"""
    key = '_ticopies'
    if not hasattr(F, key):
        out = set()
        for i in F.fn.all():
            if i.op in ('call', 'invoke') and re.match(r'llvm\.mem(cpy|move)|CglTree\w*Info::CglTree', F.fn.call(i)['q']) and len(i.a) > 1:
                s = F.val(i.a[1])
                if s and all(o[0] == 'arg' and o[1] in A and x == 0 for o, x in s):
                    out |= {o for o, x in F.val(i.a[0]) if o[0] == 'alloca'}
        setattr(F, key, out)
    return getattr(F, key)

def site(prog, i, f):
    return prog.fns[i.infn()].qname if i.infn() in prog.fns else f.qname

def issize(F, v):
    return isinstance(v, int) and F.fn.ins[v].op in ('call', 'invoke') and F.fn.call(F.fn.ins[v])['q'] == 'OsiCuts::sizeRowCuts'

def offset(F, v):
    """k when v is a number of cuts plus the constant k"""
    f = F.fn; k = 0
    while isinstance(v, int):
        i = f.ins[v]
        if i.op in ('sext', 'zext', 'trunc'): v = i.a[0]; continue
        if issize(F, v): return k
        if i.op == 'add' and any(isconst(a) for a in i.a):
            c = [a for a in i.a if isconst(a)][0]; k += cval(c); v = [a for a in i.a if a is not c][0]; continue
        if i.op == 'sub' and isconst(i.a[1]): k -= cval(i.a[1]); v = i.a[0]; continue
        return None
    return None

def positive(prog, r, F, P, S, cls, nm, ins, M, case, seen, own):
    """after the insertion `ins` the cut is marked"""
    f = F.fn
    key = (ins.id, own is not None)
    # a cut marked before it is inserted (same object): marking call dominates within the pruned graph
    mk = [m for m in M if m.blk in S.blk]
    # blocks from which marking starts: marker blocks themselves, or entry of the loop around them
    stop = set()
    for m in mk:
        recv = f.ins[m.a[0]] if isinstance(m.a[0], int) else None
        acc = recv is not None and recv.op in ('call', 'invoke') and 'rowCut' in f.call(recv)['q']
        if not acc:
            # marks a cut object before insertion: same object as the inserted one
            if {o for o, x in F.val(m.a[0])} & {o for o, x in F.val(ins.a[1])}: 
                if not prunedreach(S, f, 0, ins.blk, {m.blk}): 
                    if key not in seen: seen.add(key); r.ok('asked', 'marked before insertion at %s' % ins.loc())
                    return
            continue
        idx = recv.a[1]
        h = header(f, idx)
        if h is None: continue
        start, blk = h
        stop.add(blk)
        bad = loopcheck(F, P, S, start, idx, m, cls)
        if bad and ('loop', m.id) not in seen:
            seen.add(('loop', m.id))
            r.bad('asked', '%s:%s:loop' % (cls, site(prog, m, f)), '%s: the loop that marks the new cuts %s' % (m.loc(), bad))
    if not stop:
        if key not in seen: seen.add(key); r.undecided('asked', 'marking of the cut inserted at %s' % ins.loc())
        return
    if ins.blk in stop: return
    exits = [b for b in S.blk if f.blocks[b] and f.blocks[b][-1].op == 'ret']
    if any(prunedreach(S, f, ins.blk, e, stop) for e in exits):
        if key in seen: return
        seen.add(key)
        r.bad('asked', '%s:%s:unmarked' % (cls, site(prog, ins, f)), '%s: a cut inserted here is returned without being marked globally valid although %s asks for it' % (ins.loc(), case))
    elif key not in seen: seen.add(key); r.ok('asked', 'insertion at %s is followed by marking' % ins.loc())

def header(f, idx):
    """(start value, header block) of the counting loop that idx is the counter of"""
    v = idx
    while isinstance(v, int) and f.ins[v].op in ('sext', 'zext', 'trunc'): v = f.ins[v].a[0]
    if not isinstance(v, int) or f.ins[v].op != 'phi': return None
    i = f.ins[v]; st = []
    for x, b in i.d['in']:
        if isinstance(x, int) and f.ins[x].op == 'add' and v in f.ins[x].a: continue
        st.append(x)
    if len(st) != 1: return None
    return st[0], i.blk

def loopcheck(F, P, S, start, idx, m, cls):
    f = F.fn
    ins = [i for i in inserts(F) if i.blk in S.blk]
    s = start
    while isinstance(s, int) and f.ins[s].op in ('sext', 'zext', 'trunc'): s = f.ins[s].a[0]
    if isconst(s): return None        # editing older cuts is C06's matter
    if issize(F, s):
        if any(P.before(i, f.ins[s]) and prunedreach(S, f, i.blk, f.ins[s].blk, set()) for i in ins): return 'starts at a number of cuts taken after some had been inserted'
    elif (offset(F, s) or 0) > 0: return 'skips the first new cut'
    # bound: the comparison that leaves the loop
    v = idx
    while isinstance(v, int) and f.ins[v].op in ('sext', 'zext', 'trunc'): v = f.ins[v].a[0]
    for u in f.uses().get(v, []):
        if u.op != 'icmp': continue
        o = u.a[1] if u.a[0] == v else u.a[0]
        p = u.d['p'] if u.a[0] == v else {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(u.d['p'], u.d['p'])
        if issize(F, o):
            if any(P.before(f.ins[o], i) and i.blk in S.blk and prunedreach(S, f, f.ins[o].blk, i.blk, set()) and not prunedreach(S, f, i.blk, f.ins[o].blk, set()) for i in ins): return 'ends at a number of cuts taken before some were inserted'
            if p in ('sle',) : return 'runs past the last cut'
        else:
            k = offset(F, o)
            if k is not None and (k < 0 and p == 'slt' or k < -1 and p == 'sle'): return 'leaves out the last new cut'
    # step
    for x, b in f.ins[v].d['in']:
        if isinstance(x, int) and f.ins[x].op == 'add' and v in f.ins[x].a:
            c = [a for a in f.ins[x].a if a != v]
            if c and isconst(c[0]) and cval(c[0]) != 1: return 'steps over cuts'
    return None

def prunedreach(S, f, a, b, stop):
    """is b reachable from a over edges that can execute, not entering a block of stop?"""
    succ = {}
    if not hasattr(S, 'succ'):
        S.succ = {}
        for p, q in S.edge: S.succ.setdefault(p, []).append(q)
    seen = {a}; st = [a]
    while st:
        x = st.pop()
        for s in S.succ.get(x, []):
            if s in stop or s in seen: continue
            if s == b: return True
            seen.add(s); st.append(s)
    return a == b and a not in stop
