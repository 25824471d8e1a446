"""Copy construction, assignment, cloning and destruction of every Cgl class: per-field summaries."""
import re
from model import AnalysisBroken, qualname
from cells import analyse, base_of, mkptr, contains, has_unknown, interval, implied, add, scale, C, NULL, Undecided, _ord, isc

# Work areas: members that every use overwrites before reading (confirmed by reading the class), so
# that a copy need not carry them.  key (class declaring the member, member) -> reason
SCRATCH = {
    'CglClique': {
        'sp_numrows': 'filled by selectFractionals/selectRowCliques at the start of generateCuts', 'sp_orig_row_ind': '', 'sp_numcols': '', 'sp_orig_col_ind': '', 'sp_colsol': '',
        'sp_col_start': '', 'sp_col_ind': '', 'sp_row_start': '', 'sp_row_ind': '', 'node_node': '',
        'cl_perm_length': '', 'cl_perm_indices': '', 'cl_del_length': '', 'cl_del_indices': ''},
    'fnode': {'*': 'node of the fractional graph built inside generateCuts'},
    'frac_graph': {'*': 'fractional graph built inside generateCuts'},
    'CglFlowCover': {'firstProcess_': 'row classification is redone for the solver of the copy'},
    'CglKnapsackCover': {'solver_': 'set at the start of generateCuts', 'whichRow_': 'set at the start of generateCuts', 'complement_': 'allocated by generateCuts', 'elements_': 'allocated by generateCuts'},
    'CglMixedIntegerRounding2': {'info_': 'set at the start of generateCuts'},
    'CglProbing': {'minR_': 'work array of generateCutsAndModify', 'maxR_': '', 'markRow_': '', 'markColumn_': '', 'lookColumn_': '', 'lookRow_': ''},
    'CglRedSplit': {'*': 'everything but the parameter object and the debugging solution is rebuilt by generateCuts', '!': ('param', 'card_given_optsol', 'given_optsol')},
    'CglRedSplit2': {'*': 'everything but the parameter object is rebuilt by generateCuts', '!': ('param', )},
    'CglTwomir': {'probname_': 'refreshed from the solver in generateCuts, only used by debugging code'},
    'Cgl012Cut': {'*': 'separation state, rebuilt for every separation call; only the three thresholds are settings', '!': ('sepGraphSparseThreshold_', 'rowMaxPairCount_', 'rowMaxFractionalCount_')},
}

# Members that mean something only while another member is set.
GUARDED = {('CglProbing', 'numberIntegers_'): 'rowCopy_', ('CglProbing', 'number01Integers_'): 'rowCopy_'}

def is_scratch(cls, name, owner):
    leaf = name.split('.')[-1]
    for c in (owner, cls):
        d = SCRATCH.get(c)
        if not d: continue
        if leaf in d or name in d: return True
        if '*' in d and owner == c and leaf not in d.get('!', ()) and name.split('.')[0] not in d.get('!', ()): return True
    return False

def params(dem):
    k = dem.rfind(')'); depth = 0; j = k
    while j >= 0:
        if dem[j] == ')': depth += 1
        if dem[j] == '(':
            depth -= 1
            if depth == 0: break
        j -= 1
    return dem[j + 1:k]

def is_self_ref(cls, dem):
    return re.fullmatch(r'(?:\w+::)*%s const&' % re.escape(cls), params(dem)) is not None

def functions(prog, cls):
    """{'copy': [...], 'assign': [...], 'clone': [...], 'dtor': [...]} mangled names"""
    if (id(prog), cls) in _fmemo: return _fmemo[(id(prog), cls)]
    short = cls.split('::')[-1]
    out = {'copy': [], 'assign': [], 'clone': [], 'dtor': [], 'ctor': []}
    for n, f in prog.fns.items():
        if f.cls != cls: continue
        b = f.qname.split('::')[-1]
        if b == short:
            out['copy' if is_self_ref(short, f.dem) else 'ctor'].append(n)
        elif b == 'operator=' and is_self_ref(short, f.dem): out['assign'].append(n)
        elif b == 'clone': out['clone'].append(n)
        elif b == '~' + short: out['dtor'].append(n)
    for k in out: out[k].sort()
    _fmemo[(id(prog), cls)] = out
    return out

def api_classes(prog):
    """classes of the analysed sources with value semantics of their own"""
    return [c for c in sorted(prog.classes) if prog.classes[c]['repo'] and any(functions(prog, c)[k] for k in ('copy', 'assign', 'clone'))]

def prefetch(prog, kinds=('copy', 'assign', 'clone', 'dtor', 'ctor')):
    prog.inlined([n for c in sorted(prog.classes) if prog.classes[c]['repo'] for k in kinds for n in functions(prog, c)[k]])

_fmemo = {}
_omemo = {}
_memo = {}
def summary(prog, name, alias=False):
    key = (id(prog), name, alias)
    if key not in _memo:
        fn = prog.inlined([name])[name]
        args = None
        if alias: args = [('arg', 0, 'obj')] * len(fn.args)
        try: _memo[key] = analyse(prog, fn, args) + (fn,)
        except Undecided as e: _memo[key] = (e, None, fn)
    return _memo[key]

def owned(prog, cls):
    """offsets of pointer members whose entry value the destructor releases, with the deallocator (None: the destructor does not release it,
    but copying or assigning gives it storage of its own)"""
    if (id(prog), cls) in _omemo: return _omemo[(id(prog), cls)]
    out = _omemo[(id(prog), cls)] = {}
    fs = functions(prog, cls)
    if fs['dtor']:
        ptr = {o: s for o, s, n, t, w in prog.layout(cls) if t.rstrip().endswith('*') and not is_scratch(cls, n, w)}
        for kind in ('copy', 'assign'):
            for n in fs[kind]:
                ex, a, fn = summary(prog, n)
                if a is None: continue
                anyi = next(iter(fn.ins.values()))
                for e, dst, src in ends(kind, ex):
                    for o in ptr:
                        for st, v in field_states(a, e.st, dst, o, 8, anyi):
                            if base_of(v)[0][0] in ('new', 'clone'): out.setdefault(o, set())
    for n in functions(prog, cls)['dtor']:
        ex, a, fn = summary(prog, n)
        if a is None: continue
        this = ('arg', 0, 'obj')
        for e in ex:
            for l in e.st.log:
                if l[0] == 'release':
                    b, o, ix = base_of(l[1])
                    v = b if b[0] == 'in' else None
                    if v and v[1] == this: out.setdefault(v[2], set()).add(l[2])
    return out

def ends(kind, ex):
    """[(state, dst, src, ret)] for the normal exits"""
    out = []
    for e in ex:
        if e.kind != 'ret': continue
        if kind == 'clone': out.append((e, base_of(e.ret)[0] if e.ret else None, ('arg', 0, 'obj')))
        else: out.append((e, ('arg', 0, 'obj'), ('arg', 1, 'obj')))
    return out

def field_states(a, st, base, off, size, anyins):
    for t in a.split(st, (base, off)):
        yield t, a.load(t, mkptr(base, off), size, anyins)

def isnull(facts, v):
    if v == NULL: return True
    return facts.get(('eq',) + _ord(v, NULL)) is True

def nonpos(facts, v):
    if isc(v): return isinstance(v[1], (int, float)) and v[1] <= 0
    lo, ls, hi, hs, ne, eq = interval(facts, v)
    if eq is not None: return isinstance(eq[1], (int, float)) and eq[1] <= 0
    return hi < 1 or (hi == 1 and hs)
