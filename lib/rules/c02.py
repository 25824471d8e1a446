"""C02: copies are independent: owned storage is duplicated in full, never shared; assignment releases what it replaces
and self-assignment changes nothing."""
import re
from copies import *
from cells import tolin, lin, _ord
META = {'rule': 'For every member that the destructor releases (computed), copy construction, assignment and clone() must leave it either null (only where the source is null or its documented length is not positive) or pointing to a fresh block, large enough, that received the documented number of bytes of the source block; assignment must release the block it replaces on every path, return the left operand, and leave the object untouched when both operands are the same object.',
        'assumptions': ['library clone()/copy constructors return independent objects']}

# documented length in bytes of each owned array, in terms of other members of the same object
LENGTH = {
    'CglAllDifferent': {'start_': '4*numberSets_+4', 'which_': '4*start_[4*numberSets_]', 'originalWhich_': '4*start_[4*numberSets_]'},
    'CglDuplicateRow': {'rhs_': '4*ROWS(matrix_)', 'duplicate_': '4*ROWS(matrix_)', 'lower_': '4*ROWS(matrix_)'},
    'CglFlowCover': {'vubs_': '16*numCols_', 'vlbs_': '16*numCols_', 'rowTypes_': '4*numRows_'},
    'CglKnapsackCover': {'rowsToCheck_': '4*numRowsToCheck_', 'cliqueType_': '4*numberCliques_', 'cliqueStart_': '4*numberCliques_+4',
                         'cliqueEntry_': '4*cliqueStart_[4*numberCliques_]', 'whichClique_': '4*cliqueStart_[4*numberCliques_]',
                         'oneFixStart_': '4*numberColumns_', 'zeroFixStart_': '4*numberColumns_', 'endFixStart_': '4*numberColumns_'},
    'CglMixedIntegerRounding': {'vubs_': '16*numCols_', 'vlbs_': '16*numCols_', 'rowTypes_': '4*numRows_', 'indRows_': '4*numRows_', 'indRowMix_': '4*numRowMix_',
                                'indRowCont_': '4*numRowCont_', 'indRowContVB_': '4*numRowCont_', 'indRowInt_': '4*numRowInt_', 'sense_': '1*numRows_', 'RHS_': '8*numRows_'},
    'CglMixedIntegerRounding2': {'vubs_': '16*numCols_', 'vlbs_': '16*numCols_', 'rowTypes_': '4*numRows_', 'indRows_': '4*numRows_', 'indRowMix_': '4*numRowMix_',
                                 'indRowCont_': '4*numRowCont_', 'indRowContVB_': '4*numRowCont_', 'indRowInt_': '4*numRowInt_', 'sense_': '1*numRows_', 'RHS_': '8*numRows_', 'integerType_': '1*numCols_'},
    'CglOddHole': {'suitableRows_': '4*numberRows_', 'startClique_': '4*numberCliques_+4', 'member_': '4*startClique_[4*numberCliques_]'},
    'CglProbing': {'rowLower_': '8*numberRows_', 'rowUpper_': '8*numberRows_', 'colLower_': '8*numberColumns_', 'colUpper_': '8*numberColumns_', 'lookedAt_': '4*numberColumns_',
                   'cliqueType_': '4*numberCliques_', 'cliqueStart_': '4*numberCliques_+4', 'cliqueEntry_': '4*cliqueStart_[4*numberCliques_]', 'whichClique_': '4*cliqueStart_[4*numberCliques_]',
                   'oneFixStart_': '4*numberColumns_', 'zeroFixStart_': '4*numberColumns_', 'endFixStart_': '4*numberColumns_', 'cliqueRowStart_': '4*numberRows_+4',
                   'cliqueRow_': '4*cliqueRowStart_[4*numberRows_]', 'tightenBounds_': '1*numberColumns_'},
    'CglResidualCapacity': {'rowTypes_': '4*numRows_', 'indRows_': '4*numRows_', 'sense_': '1*numRows_', 'RHS_': '8*numRows_', 'indRowL_': '4*numRowL_', 'indRowG_': '4*numRowG_'},
    'CglStored': {'bestSolution_': '8*numberColumns_+8', 'bounds_': '16*numberColumns_'},
    'CglTreeProbingInfo': {'fixEntry_': '4*maximumEntries_', 'toZero_': '4*numberIntegers_+4', 'toOne_': '4*numberIntegers_', 'integerVariable_': '4*numberIntegers_',
                           'backward_': '4*numberVariables_', 'fixingEntry_': '4*maximumEntries_'},
    'CglZeroHalf': {'mtbeg_': '4*mr_', 'mtcnt_': '4*mr_', 'mtind_': '4*mnz_', 'mtval_': '4*mnz_', 'vlb_': '4*mc_', 'vub_': '4*mc_', 'mrhs_': '4*mr_', 'msense_': '1*mr_'},
}
# further members whose non-positive value means "there is no such data"
EMPTY_IF = {'CglProbing': {c: ['numberCliques_'] for c in ('cliqueType_', 'cliqueStart_', 'cliqueEntry_', 'whichClique_', 'oneFixStart_', 'zeroFixStart_', 'endFixStart_', 'cliqueRow_', 'cliqueRowStart_')},
            'CglKnapsackCover': {c: ['numberCliques_'] for c in ('cliqueType_', 'cliqueStart_', 'cliqueEntry_', 'whichClique_', 'oneFixStart_', 'zeroFixStart_', 'endFixStart_')}, 'CglAllDifferent': {'*': ['numberSets_']}, 'CglTreeProbingInfo': {'*': ['numberVariables_']},
            'CglZeroHalf': {'*': ['mr_']}, 'CglStored': {'bestSolution_': ['numberColumns_'], 'bounds_': ['numberColumns_']}}
# arrays that exist only in one of two states of the object: (member, '<0' or '>=0') says when the array is absent
ABSENT_IF = {('CglTreeProbingInfo', 'toZero_'): ('numberEntries_', '>=0'), ('CglTreeProbingInfo', 'toOne_'): ('numberEntries_', '>=0'),
             ('CglTreeProbingInfo', 'fixingEntry_'): ('numberEntries_', '<0')}

def length(prog, a, st, cls, src, expr, anyi):
    """value of a length expression over the members of src"""
    def member(n):
        off = prog.field_off(cls, n)
        return ('in', src, off)
    out = C(0)
    for term in re.findall(r'[^+]+(?:\[[^\]]*\])?', re.sub(r'\[([^\]]*)\]', lambda m: '[' + m.group(1).replace('+', '~') + ']', expr)):
        m = re.fullmatch(r'(\d+)\*ROWS\((\w+)\)', term)
        if m:
            out = add(out, ('rows', member(m.group(2)), int(m.group(1)))); continue
        m = re.fullmatch(r'(\d+)\*(\w+)\[(\d+)\*(\w+)\]', term)
        if m:
            out = add(out, scale(('ldx', member(m.group(2)), 0, scale(member(m.group(4)), int(m.group(3)))), int(m.group(1)))); continue
        m = re.fullmatch(r'(\d+)\*(\w+)', term)
        if m: out = add(out, scale(member(m.group(2)), int(m.group(1)))); continue
        out = add(out, C(int(term)))
    return out

def rows_like(prog, cls, v, src, want):
    """v is k * number of rows of the matrix member of the object (or of its copy)"""
    _, mem, k = want
    moff = mem[2]
    c, t = tolin(v)
    if c or len(t) != 1: return False
    (x, kk), = t.items()
    if kk != k: return False
    if x[0] == 'mcall' and x[1].endswith('::getNumRows'):
        y = x[2]
        return y == mem or (y[0] == 'obj' and y[1] == 'copy' and base_of(y[3])[:2] == (src, moff)) or (y[0] == 'in' and y[1] == src)
    # CoinPackedMatrix::getNumRows() is inline: reads of the matrix' own counters
    def cells_ok(z):
        if z[0] == 'in' and z[1] == src and moff <= z[2] < moff + 400: return True
        if z[0] == 'in' and z[1] == ('arg', 0, 'obj') and moff <= z[2] < moff + 400: return True
        return False
    return contains(x, cells_ok)

def run(prog, r):
    prefetch(prog)
    for cls in api_classes(prog):
        fs = functions(prog, cls); own = owned(prog, cls)
        offs = {o: (s, n, t, w) for o, s, n, t, w in prog.layout(cls)}
        lens = LENGTH.get(cls, {})
        ownf = sorted((o, offs[o]) for o in own if o in offs)
        for kind in ('copy', 'assign', 'clone'):
            for n in fs[kind]:
                ex, a, fn = summary(prog, n)
                if a is None:
                    r.undecided('deep-copy', '%s: %s' % (fn.dem, ex)); continue
                anyi = next(iter(fn.ins.values()))
                for o, (size, name, ty, owner) in ownf:
                    if is_scratch(cls, name, owner): continue
                    verdicts = []
                    for e, dst, src in ends(kind, ex):
                        if dst is None: continue
                        for st, v in field_states(a, e.st, dst, o, size, anyi):
                            verdicts.append(judge(prog, a, st, cls, name, o, v, dst, src, kind, lens, anyi, ty))
                    bad = [x for x in verdicts if x and x[0] == 'bad']; und = [x for x in verdicts if x and x[0] == 'und']
                    if bad: r.bad('deep-copy', '%s:%s' % (fn.dem, name), '%s: %s: owned member %s %s' % (fn.where(), fn.dem, name, bad[0][1]))
                    elif und: r.undecided('deep-copy', '%s %s: %s' % (fn.dem, name, und[0][1]))
                    elif verdicts: r.ok('deep-copy', '%s %s' % (fn.dem, name))
                if kind == 'assign':
                    for o, (size, name, ty, owner) in ownf:
                        if is_scratch(cls, name, owner): continue
                        old = ('in', ('arg', 0, 'obj'), o); bad = None
                        for e in ex:
                            if e.kind != 'ret': continue
                            for st, v in field_states(a, e.st, ('arg', 0, 'obj'), o, size, anyi):
                                if v == old: continue
                                def rel(f): return any(base_of(p)[0] == old for p in st.rel) or f.get(('eq',) + _ord(old, NULL)) is True or empty(prog, cls, f, ('arg', 0, 'obj'), name, lens)
                                if not implied(st.facts, rel): bad = e
                        if bad and indirect(prog, n, cls, o): r.undecided('assign-releases', '%s %s: released through a table of addresses' % (fn.dem, name))
                        elif bad: r.bad('assign-releases', '%s:%s' % (fn.dem, name), '%s: %s: member %s is replaced without releasing the block it pointed to (leak on every reassignment)' % (fn.where(), fn.dem, name))
                        else: r.ok('assign-releases', '%s %s' % (fn.dem, name))
                    rets = [e.ret for e in ex if e.kind == 'ret']
                    if all(x == ('arg', 0, 'obj') for x in rets): r.ok('assign-returns-left', fn.dem)
                    elif any(x == ('arg', 1, 'obj') for x in rets): r.bad('assign-returns-left', fn.dem, '%s: %s returns its right operand' % (fn.where(), fn.dem))
                    else: r.undecided('assign-returns-left', fn.dem)
                for e in ex:
                    if e.kind == 'ret':
                        for b, loc in a.lost(e):
                            r.bad('lost-block', '%s:%s' % (fn.dem, loc.split(':')[0]), '%s: %s: block allocated here is neither released nor reachable when the function returns' % (loc, fn.dem))
                        r.ok('lost-block', fn.dem)
                    for b in e.st.bad:
                        r.bad('storage-misuse', '%s:%s:%s' % (fn.dem, b[0], nm(prog, cls, b[1])), '%s: in %s: %s of %s' % (b[2], fn.dem, b[0], nm(prog, cls, b[1])))
                r.ok('storage-misuse')
        # self assignment
        for n in fs['assign']:
            ex, a, fn = summary(prog, n, alias=True)
            if a is None: r.undecided('self-assign', fn.dem); continue
            bad = None
            for e in ex:
                if e.kind != 'ret': continue
                for p, w in e.st.rel.items():
                    b = base_of(p)[0]
                    if b[0] == 'in' and b[1] == ('arg', 0, 'obj') and e.st.facts.get(('eq',) + _ord(b, NULL)) is not True:
                        bad = 'releases %s' % nm(prog, cls, p)
                for k, v in e.st.cells.items():
                    if k[0] == ('arg', 0, 'obj') and isinstance(k[1], int):
                        sub = [x for x in prog.layout(cls) if x[0] == k[1]]
                        if sub and is_scratch(cls, sub[0][2], sub[0][4]): continue
                        for st, vv in field_states(a, e.st, k[0], k[1], 8, next(iter(fn.ins.values()))):
                            if vv == ('in', k[0], k[1]) or (vv[0] == 'obj' and vv[1] == 'copy' and base_of(vv[3])[:2] == (k[0], k[1])): continue
                            if isc(vv) or vv == ('uninit',):
                                def p(f):
                                    if vv == NULL: return isnull(f, ('in', k[0], k[1]))
                                    lo, ls, hi, hs, ne, eq = interval(f, ('in', k[0], k[1]))
                                    return (eq is not None and eq[1] == vv[1]) or lo == hi == vv[1]
                                if not implied(st.facts, p): bad = 'changes %s' % prog.field(cls, k[1])
            if bad: r.bad('self-assign', fn.dem, '%s: %s applied to the object itself %s' % (fn.where(), fn.dem, bad))
            else: r.ok('self-assign', fn.dem)
        # destructor: releases every owned block exactly once, with the deallocator that matches its allocation
        for n in fs['dtor']:
            ex, a, fn = summary(prog, n)
            if a is None: r.undecided('destructor', fn.dem); continue
            mis = {b for e in ex for b in e.st.bad}
            for b in mis: r.bad('destructor', '%s:%s:%s' % (fn.dem, b[0], nm(prog, cls, b[1])), '%s: in %s: %s of %s' % (b[2], fn.dem, b[0], nm(prog, cls, b[1])))
            for o, (size, name, ty, owner) in ownf:
                old = ('in', ('arg', 0, 'obj'), o)
                def relp(st): return lambda f: any(base_of(p)[0] == old for p in st.rel) or f.get(('eq',) + _ord(old, NULL)) is True or empty(prog, cls, f, ('arg', 0, 'obj'), name, lens) or guarded_absent(prog, cls, f, name)
                if all(implied(e.st.facts, relp(e.st)) for e in ex if e.kind == 'ret'): r.ok('destructor', '%s %s' % (fn.dem, name))
                elif indirect(prog, n, cls, o): r.undecided('destructor', '%s %s: released through a table of addresses' % (fn.dem, name))
                else: r.bad('destructor', '%s:%s' % (fn.dem, name), '%s: %s does not release member %s on every path' % (fn.where(), fn.dem, name))
    r.need('deep-copy', 120); r.need('assign-releases', 40); r.need('self-assign', 20); r.need('destructor', 60)

def guarded_absent(prog, cls, f, name):
    return cls == 'CglProbing' and isnull(f, ('in', ('arg', 0, 'obj'), prog.field_off('CglProbing', 'rowCopy_')))

def nm(prog, cls, v):
    b = base_of(v)[0]
    if b[0] == 'in' and b[1][0] == 'arg': return 'member ' + str(prog.field(cls, b[2]))
    if b[0] in ('new', 'clone'): return 'a new block'
    return str(b)[:60]

def empty(prog, cls, f, src, name, lens):
    """facts say that the object has no such data"""
    ns = list(EMPTY_IF.get(cls, {}).get('*', [])) + list(EMPTY_IF.get(cls, {}).get(name, []))
    if cls == 'CglProbing' and name in ('cliqueRow_',) and isnull(f, ('in', src, prog.field_off(cls, 'cliqueRowStart_'))): return True
    if name in lens: ns += [x for x in re.findall(r'[A-Za-z_]\w*', lens[name]) if x != 'ROWS']
    for x in ns:
        try: o = prog.field_off(cls, x)
        except AnalysisBroken: continue
        v = ('in', src, o)
        if x.endswith('_') and nonpos(f, v): return True
    ab = ABSENT_IF.get((cls, name))
    if ab:
        v = ('in', src, prog.field_off(cls, ab[0]))
        lo, ls, hi, hs, ne, eq = interval(f, v)
        if ab[1] == '>=0' and lo >= 0: return True
        if ab[1] == '<0' and (hi < 0 or (hi == 0 and hs)): return True
    return False

def judge(prog, a, st, cls, name, o, v, dst, src, kind, lens, anyi, ty):
    want = ('in', src, o)
    if v == ('in', dst, o) and kind == 'assign':      # untouched: C01 decides
        if any(base_of(p)[0] == v for p in st.rel) and not implied(st.facts, lambda f: isnull(f, v) or empty(prog, cls, f, dst, name, lens)): return ('bad', 'still points to the block that was released')
        return None
    if v == NULL:
        def ok(f):
            if isnull(f, want) or empty(prog, cls, f, src, name, lens): return True
            if cls == 'CglProbing' and isnull(f, ('in', src, prog.field_off('CglProbing', 'rowCopy_'))): return True
            if cls == 'CglFakeClique' and isnull(f, ('in', src, prog.field_off('CglFakeClique', 'fakeSolver_'))): return True
            return False
        if implied(st.facts, ok): return ('ok',)
        return ('bad', 'is left null although the source may have data there')
    if v == want: return ('bad', 'is shared with the source object (both would release it)')
    if base_of(v)[0] == want: return ('bad', 'points into the block of the source object')
    b, po, ix = base_of(v)
    if b[0] == 'clone':
        return ('ok',) if b[1] == want else ('bad', 'is a clone of something else than the member of the source')
    if v == ('uninit',): return ('bad', 'is left uninitialised')
    if b[0] != 'new': return ('und', 'value not tracked %s' % (str(v)[:120],))
    if st.released(b): return ('bad', 'points to a block that was already released')
    if name not in lens: return ('ok',) if not isc(b[2]) or cls_obj(ty) else ('und', 'no documented length')
    L = length(prog, a, st, cls, src, lens[name], anyi)
    cp = None
    for e in st.arr.get(b, ()):
        if e[0] == 'copy' and e[1] == po: cp = e
        elif e[0] in ('unk', 'each') and cp is not None: return ('und', 'written again after the copy')
    if cp is None:
        return ('und', 'content not tracked') if any(e[0] in ('unk', 'each') for e in st.arr.get(b, ())) else ('bad', 'points to a new block that does not receive the source data')
    n = cp[3]
    if contains(L, lambda x: x[0] == 'rows'):
        if rows_like(prog, cls, n, src, L): pass
        elif has_unknown(n): return ('und', 'length not tracked')
        else: return ('bad', 'receives %s bytes instead of one entry per row' % (sh(prog, cls, n),))
    elif n != L:
        # lengths may differ in what the facts settle
        if has_unknown(n) or contains(n, lambda x: x[0] in ('e', 'mcall', 'ldx')) and not contains(L, lambda x: x[0] == 'ldx'): return ('und', 'length not tracked: %s' % (str(n)[:100],))
        return ('bad', 'receives %s bytes of the source instead of %s' % (sh(prog, cls, n), sh(prog, cls, L)))
    # room: allocated - copied must be a non-negative constant (or linear with non-negative coefficients of counts)
    d = add(add(b[2], C(po), -1), n, -1)
    c, t = tolin(d)
    if not t and c < 0: return ('bad', 'is allocated %s bytes but receives %s' % (sh(prog, cls, b[2]), sh(prog, cls, n)))
    if any(k < 0 for k in t.values()):
        return ('und', 'allocation size not comparable') if has_unknown(d) or contains(d, lambda x: x[0] in ('e', 'mcall')) else ('bad', 'is allocated %s bytes but receives %s' % (sh(prog, cls, b[2]), sh(prog, cls, n)))
    return ('ok',)

def cls_obj(ty): return ty.rstrip(' *') in ('CglTreeProbingInfo', 'CglProbing', 'OsiSolverInterface', 'CglStored', 'CoinPackedMatrix') or True

def sh(prog, cls, v):
    c, t = tolin(v)
    def one(x):
        if x[0] == 'in' and x[1][0] == 'arg': return str(prog.field(cls, x[2]))
        if x[0] == 'ldx': return '%s[..]' % one(x[1])
        return str(x)[:60]
    return ' + '.join(['%s*%s' % (k, one(x)) for x, k in t.items()] + ([str(c)] if c or not t else []))

def indirect(prog, n, cls, o):
    """is a block released whose pointer was read through an address that stands for this member among others?"""
    from flow import flow
    from access import root
    prog.inlined([root(n, cls)])
    F = flow(prog, n, cls); f = F.fn
    for i in f.all():
        if i.op in ('call', 'invoke') and (f.call(i)['q'].startswith(('operator delete', 'free')) or f.call(i)['q'] == 'free') and i.a:
            wl = [i.a[0]]; seen = set()
            while wl:
                v = wl.pop()
                if not isinstance(v, int) or v in seen: continue
                seen.add(v); j = f.ins[v]
                if j.op == 'load':
                    t = F.val(j.a[0])
                    if len(t) > 1 and any(b == ('arg', 0) and x in (o, '*') for b, x in t): return True
                elif j.op == 'phi': wl += [x for x, _ in j.d['in']]
                elif j.op in ('bitcast', 'freeze'): wl += j.a
                elif j.op == 'getelementptr': wl.append(j.d['b'])
    return False
