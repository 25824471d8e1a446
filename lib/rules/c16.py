"""C16: what a generator derived from an earlier problem is dropped by a refresh and rebuilt before it is used."""
import re
from model import AnalysisBroken, isconst, cval
from access import root as rt_, find
from flow import flow
from paths import Paths
from walk import Walk
from sccp import Sccp, k as k_
from rules.c15 import events, site
from rules.c08 import entries

META = {'rule': 'Must-write dataflow with consistent paths over refreshSolver()/refreshPrep() with helpers inlined: every member that holds something derived from the problem is written on every path to a return '
                '(paths on which there is no solver, or on which the member was null anyway, excepted), the preparation mark with the constant "not prepared"; and over generateCuts() in the state "not prepared": '
                'every prepared member is written before it is read, and the call returns prepared only after that.',
        'assumptions': ['the list of members derived from the problem is fixed in the rule', 'exceptions and process exits are not returns']}

# class -> (refresh function, members derived from the problem)
DERIVED = {
    'CglDuplicateRow': ('refreshSolver', ('matrix_', 'matrixByRow_', 'rhs_', 'duplicate_', 'lower_', 'storedCuts_')),
    'CglZeroHalf': ('refreshSolver', ('mr_', 'mc_', 'mnz_', 'mtbeg_', 'mtcnt_', 'mtind_', 'mtval_', 'vlb_', 'vub_', 'mrhs_', 'msense_', 'cutInfo_.inp_ilp', 'cutInfo_.p_ilp')),
    'CglGomory': ('refreshSolver', ('originalSolver_', 'canDoGlobalCuts_')),
    'CglTwomir': ('refreshSolver', ('originalSolver_',)),
    'CglProbing': ('refreshSolver', ('rowCopy_', 'columnCopy_', 'rowLower_', 'rowUpper_', 'colLower_', 'colUpper_', 'numberRows_', 'numberColumns_')),
}
# only if this member was set (no snapshot: nothing was derived)
ONLY = {'CglProbing': 'rowCopy_'}
# class -> (refresh function, preparation mark, prepared members)
PREP = {
    'CglMixedIntegerRounding': ('refreshSolver', 'doneInitPre_', ('numRows_', 'numCols_', 'vubs_', 'vlbs_', 'rowTypes_', 'indRows_', 'numRowMix_', 'indRowMix_', 'numRowCont_', 'indRowCont_',
                                'numRowInt_', 'indRowInt_', 'numRowContVB_', 'indRowContVB_', 'sense_', 'RHS_')),
    'CglMixedIntegerRounding2': ('refreshSolver', 'doneInitPre_', ('numRows_', 'numCols_', 'vubs_', 'vlbs_', 'rowTypes_', 'indRows_', 'numRowMix_', 'indRowMix_', 'numRowCont_', 'indRowCont_',
                                 'numRowInt_', 'indRowInt_', 'numRowContVB_', 'indRowContVB_', 'integerType_', 'sense_', 'RHS_')),
    'CglResidualCapacity': ('refreshPrep', 'doneInitPre_', ('numRows_', 'numCols_', 'rowTypes_', 'indRows_', 'sense_', 'RHS_', 'numRowL_', 'indRowL_', 'numRowG_', 'indRowG_')),
}

def solver_null(F, f):
    """decides conditions on the solver argument: there is one"""
    def d(k):
        if k[0] == 'cmp' and k[1] == 'eq' and ('null',) in (k[2], k[3]):
            for x in (k[2], k[3]):
                if x == ('a', 1): return False
        return None
    return d

def benign(f, i):
    """is the loaded value only compared with null or released?"""
    seen = set(); wl = [i]
    U = f.uses()
    while wl:
        x = wl.pop()
        for u in U.get(x.id, ()):
            if u.id in seen: continue
            seen.add(u.id)
            if u.op in ('icmp',) and any(isconst(y) and ('null' in y) for y in u.a): continue
            if u.op in ('call', 'invoke'):
                q = f.call(u)['q']
                if q.startswith(('operator delete', 'free')) or q in ('_ZdlPv', '_ZdaPv'): continue
                return False
            if u.op == 'icmp': continue
            if u.op in ('bitcast', 'freeze', 'phi', 'getelementptr'): wl.append(u); continue
            if u.op == 'load' and x.op == 'getelementptr' and (x.d.get('o') or 0) < 0 and not x.d['v']: continue      # the element count that delete[] looks at
            return False
    return True

def run(prog, r):
    todo = []
    for c, (m, L) in DERIVED.items():
        n = find(prog, c, m + '(OsiSolverInterface*)')
        if not n: raise AnalysisBroken('%s::%s vanished' % (c, m))
        todo.append((c, n))
    prep = []
    for c, (m, k, L) in PREP.items():
        n = find(prog, c, m + '(OsiSolverInterface*)') or find(prog, c, m + '()')
        if not n: raise AnalysisBroken('%s::%s vanished' % (c, m))
        prep.append((c, n))
    E = [(n, g) for n, g in entries(prog) if g in PREP and 'OsiSolverInterface' in prog.fns[n].dem and prog.fns[n].qname.endswith('::generateCuts')]
    prog.inlined([rt_(n, c) for c, n in todo + prep] + [rt_(n, g) for n, g in E])
    for c, n in todo:
        offs = members(prog, c, DERIVED[c][1])
        F = flow(prog, n, c); f = F.fn; P = Paths(f)
        evs = events(F, f, offs)
        only = ONLY.get(c); extra = {prog.field_off(c, only)} if only else set()
        for o, (nm, s) in sorted(offs.items()):
            ptr = is_ptr(prog, c, o)
            W = Walk(F, f, P, evs, (), nonnull=({o} if ptr else set()) | extra, decide=solver_null(F, f))
            what = '%s %s' % (f.qname, nm)
            stop = {b for b, e in evs.items() if any(k == 'def' and x == o for i, k, x in e)}
            p = W.run('ret', stop)
            if p is None: r.ok('dropped', what)
            elif p == 'cap': r.undecided('dropped', what)
            else: r.bad('dropped', '%s:%s' % (f.qname, nm), '%s: %s can return (%s) with %s as it was: what was derived from the earlier problem stays in use' % (f.where(), f.qname, f.blocks[p[-1]][-1].loc(), nm))
    for c, n in prep:
        m, k, L = PREP[c]
        F = flow(prog, n, c); f = F.fn; P = Paths(f)
        offs = members(prog, c, (k,)); ko = next(iter(offs)); evs = events(F, f, offs)
        W = Walk(F, f, P, evs, (), decide=solver_null(F, f))
        stop = {b for b, e in evs.items() if any(kind == 'def' for i, kind, x in e)}
        what = '%s %s' % (f.qname, k)
        p = W.run('ret', stop)
        if p is None: r.ok('dropped', what)
        elif p == 'cap': r.undecided('dropped', what)
        else: r.bad('dropped', '%s:%s' % (f.qname, k), '%s: %s can return without marking the generator as not prepared (%s)' % (f.where(), f.qname, k))
        marked(prog, r, c, F, f, P, {})
    for n, c in E:
        m, k, L = PREP[c]
        ko = prog.field_off(c, k)
        F = flow(prog, n, c); f = F.fn; P = Paths(f)
        offs = members(prog, c, L); evs = events(F, f, offs)
        marked(prog, r, c, F, f, P, {ko: 0})
        cases = [('not prepared', {ko: 0})]
        if any(x[2] == 'doPreproc_' for x in prog.layout(c)): cases.append(('told to prepare at every call', {prog.field_off(c, 'doPreproc_'): 1}))
        for state, known in cases:
            ex = executable(F, f, known)
            for o in sorted(offs):
                uses = {}
                for b, e in evs.items():
                    for i, kind, x in e:
                        if x != o: continue
                        if kind == 'def': break
                        if i.op == 'load' and benign(f, i): continue
                        uses.setdefault(b, i)
                stop = {b for b, e in evs.items() if any(kind == 'def' and x == o for j, kind, x in e)}
                ptr = is_ptr(prog, c, o)
                W = Walk(F, f, P, evs, (), known=known, nonnull={o} if ptr else ())
                free = unwritten(f, ex, stop, W, o)
                for b in sorted(uses):
                    i = uses[b]; what = '%s reads %s (%s)' % (site(prog, i, f), offs[o][0], state)
                    if b not in free: r.ok('rebuilt', what); continue
                    p = W.run(b, stop - {b})
                    if p is None: r.ok('rebuilt', what)
                    elif p == 'cap': r.undecided('rebuilt', what)
                    else:
                        r.bad('rebuilt', '%s:%s' % (site(prog, i, f), offs[o][0]), '%s: %s uses %s, which %s has not rebuilt although the generator was %s' % (i.loc(), site(prog, i, f), offs[o][0], f.qname, state))
                        break
    r.need('dropped', 20); r.need('rebuilt', 30); r.need('marked', 20)

def is_ptr(prog, c, o):
    return [t for x, z, q, t, w in prog.layout(c) if x == o][0].rstrip().endswith('*')

def executable(F, f, known):
    """edges that can execute when members have a known value on entry"""
    defs = {}
    for i in f.all():
        if i.op == 'store':
            for o, x in F.val(i.a[1]):
                if o == ('arg', 0): defs.setdefault(x, set()).add(i.blk)
    fix = {}
    for off, v in known.items():
        wl = list(defs.get(off, ())); late = set()
        while wl:
            b = wl.pop()
            for s in f.succ[b]:
                if s not in late: late.add(s); wl.append(s)
        for i in f.all():
            if i.op == 'load' and i.blk not in late and i.blk not in defs.get(off, ()):
                t = F.val(i.a[0])
                if t == {(('arg', 0), off)} or len(t) == 1 and next(iter(t)) == (('arg', 0), off): fix[i.id] = k_(v)
    S = Sccp(f, lambda i: fix.get(i.id))
    return {(p, b) for p, b in S.edge if p is not None}

def unwritten(f, edges, stop, W, o):
    """blocks that can be entered on an executable path without a write of the member (finding it null counts as one)"""
    succ = {}
    for p, b in edges: succ.setdefault(p, set()).add(b)
    seen = {0}; wl = [0]
    while wl:
        b = wl.pop()
        if b in stop: continue
        for s in succ.get(b, ()):
            if s in seen: continue
            E = [(k, t) for x, k, t in W.E[b] if x == s]
            if E and all(k is not None and k in W.tests.get(b, {}) and W.tests[b][k][0] == o and t for k, t in E): continue
            seen.add(s); wl.append(s)
    return seen

def marked(prog, r, c, F, f, P, known):
    """the mark is set only where every prepared member was rebuilt"""
    m, k, L = PREP[c]
    ko = prog.field_off(c, k); offs = members(prog, c, L); evs = events(F, f, offs)
    marks = [i for i in f.all() if i.op == 'store' and any(oo == ('arg', 0) and x == ko for oo, x in F.val(i.a[1])) and not (isconst(i.a[0]) and not cval(i.a[0]))]
    ex = executable(F, f, known)
    for o, (nm, s) in sorted(offs.items()):
        W = Walk(F, f, P, evs, (), known=known, nonnull={o} if is_ptr(prog, c, o) else (), decide=solver_null(F, f))
        for i in marks:
            stop = {q for q, e in evs.items() if any(kk == 'def' and x == o and (q != i.blk or j.pos < i.pos) for j, kk, x in e)}
            p = None if i.blk in stop or i.blk not in unwritten(f, ex, stop, W, o) else W.run(i.blk, stop)
            what = '%s sets %s after %s' % (f.qname, k, nm)
            if p is None: r.ok('marked', what)
            elif p == 'cap': r.undecided('marked', what)
            else: r.bad('marked', '%s:%s' % (f.qname, nm), '%s: %s marks the generator as prepared although %s was not rebuilt' % (i.loc(), f.qname, nm))

def members(prog, c, L):
    out = {}
    lay = {nm: (o, s) for o, s, nm, t, w in prog.layout(c)}
    for m in L:
        if m in lay: out[lay[m][0]] = (m, lay[m][1])
        else:
            h = [(o, s, nm) for o, s, nm, t, w in prog.layout(c) if nm == m or nm.startswith(m + '.')]
            if not h: raise AnalysisBroken('%s has no member %s' % (c, m))
            out[h[0][0]] = (m, h[-1][0] + h[-1][1] - h[0][0])
    return out
