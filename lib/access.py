"""Setters, getters and constructors as functions on members (from the cell dataflow)."""
import re
from model import AnalysisBroken
from cells import analyse, base_of, C, NULL, Undecided, isc, contains, implied
from copies import params, is_self_ref

THIS = ('arg', 0, 'obj')
_m = {}
def root(name, cls=None): return (name, ('!' + cls,)) if cls else name

def run1(prog, name, cls=None):
    """exits of the function; with cls: for an object whose dynamic type is cls"""
    k = (id(prog), name, cls)
    if k not in _m:
        fn = prog.inlined([root(name, cls)])[name]
        try: _m[k] = analyse(prog, fn) + (fn,)
        except Undecided as e: _m[k] = (None, str(e), fn)
    return _m[k]

def evalfact(at, tv, env):
    """truth of a fact under an assignment of abstract values to numbers: True/False/None"""
    if at[0] == 'dnf':
        rs = []
        for d in at[1]:
            r = [evalfact(a, t, env) for a, t in d]
            rs.append(False if False in r else None if None in r else True)
        return True if True in rs else None if None in rs else False
    def num(x):
        if isc(x): return x[1]
        if x in env: return env[x]
        if x[0] == 'lin':
            s = x[1]
            for a, c in x[2]:
                y = num(a)
                if y is None: return None
                s += c * y
            return s
        if x[0] == 'e' and x[1] in ('and', 'or', 'sitofp', 'fabs', 'fsub', 'fadd', 'fneg', 'fmul'):
            ys = [num(y) for y in x[2:]]
            if None in ys: return None
            try:
                return {'and': lambda: ys[0] & ys[1], 'or': lambda: ys[0] | ys[1], 'sitofp': lambda: float(ys[0]), 'fabs': lambda: abs(ys[0]),
                        'fsub': lambda: ys[0] - ys[1], 'fadd': lambda: ys[0] + ys[1], 'fneg': lambda: -ys[0], 'fmul': lambda: ys[0] * ys[1]}[x[1]]()
            except Exception: return None
        return None
    if at[0] in ('lt', 'eq'):
        a, b = num(at[1]), num(at[2])
        if a is None or b is None: return None
        return ((a < b) if at[0] == 'lt' else (a == b)) == tv
    if at[0] == 'truth':
        a = num(at[1])
        return None if a is None else bool(a) == tv
    return None

def consistent(st, env):
    """False if some fact is false under env; True if all are true; None if open"""
    r = [evalfact(a, t, env) for a, t in st.facts.items()]
    return False if False in r else None if None in r else True

def writes(a, e, fn):
    out = {}
    for k, v in e.st.cells.items():
        if k[0] == THIS and isinstance(k[1], int): out[k[1]] = v
    return out

def getter_off(prog, name):
    """offset of the member that a getter returns, or None"""
    ex, a, fn = run1(prog, name)
    if not ex: return None
    offs = set()
    for e in ex:
        r = e.ret
        if e.kind != 'ret' or r is None: continue
        if r[0] == 'cmp' and r[1] == 'ne' and r[3] == C(0): r = r[2]       # int member seen as bool
        if r[0] == 'in' and r[1] == THIS: offs.add(r[2])
        else: return None
    return offs.pop() if len(offs) == 1 else None

def consts(facts, v):
    out = set()
    def w(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'c' and isinstance(x[1], (int, float)) and not isinstance(x[1], bool): out.add(x[1])
            for y in x:
                if isinstance(y, tuple): w(y)
    for at in facts: w(at)
    return out

# ---- specification of settings --------------------------------------------------------------
import os
from model import VERIF
def spec():
    out = []
    for l in open(os.path.join(VERIF, 'spec', 'settings.txt')):
        l = l.strip()
        if l and not l.startswith('#'): out.append([x.strip() for x in l.split(' | ')])
    return out

_by = {}
def find(prog, cls, sig):
    """member function of cls (or of a base class) by name and parameter list"""
    if id(prog) not in _by:
        d = _by[id(prog)] = {}
        for n, f in prog.fns.items():
            if f.cls and not re.search(r'[CD][12]E', n) or re.search(r'[CD]2E', n):
                m = re.match(r'(?:.*::)?((?:~|operator)?[^:]*\(.*\))( const)?$', f.dem[len(f.cls) + 2:] if f.dem.startswith(f.cls + '::') else '')
                if m: d[(f.cls, m.group(1))] = n
        for n, f in prog.fns.items():
            if re.search(r'C1E', n) and f.dem.startswith(f.cls + '::'):
                d.setdefault((f.cls, f.dem[len(f.cls) + 2:]), n)
    for c in [cls] + [x for x in prog.ancestors(cls) if x != cls]:
        n = _by[id(prog)].get((c, sig))
        if n: return n
    return None

def values(e, a, env):
    """numeric value of every member written on this exit; 'unk' when it is not a number"""
    out = {}
    for off, v in writes(a, e, a.fn).items():
        if v == ('in', THIS, off): continue
        out[off] = evalnum(v, env)
    return out

def evalnum(v, env):
    if v == NULL: return 'null'
    r = _num(v, env)
    return 'unk' if r is None else r

def _num(x, env):
    if isc(x): return x[1]
    if x in env: return env[x]
    if x[0] == 'lin':
        s = x[1]
        for b, c in x[2]:
            y = _num(b, env)
            if not isinstance(y, (int, float)): return None
            s += c * y
        return s
    if x[0] == 'cmp':
        p, q = _num(x[2], env), _num(x[3], env)
        if not isinstance(p, (int, float)) or not isinstance(q, (int, float)): return None
        o = x[1][1:] if x[1] in ('sgt', 'sge', 'slt', 'sle', 'ugt', 'uge', 'ult', 'ule', 'ogt', 'oge', 'olt', 'ole', 'oeq', 'one', 'une', 'ueq') else x[1]
        return {'gt': p > q, 'ge': p >= q, 'lt': p < q, 'le': p <= q, 'eq': p == q, 'ne': p != q}.get(o)
    if x[0] == 'e':
        ys = [_num(y, env) if isinstance(y, tuple) else None for y in x[2:]]
        if any(not isinstance(y, (int, float)) for y in ys): return None
        f = {'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b, 'sitofp': lambda a: float(a), 'uitofp': lambda a: float(a), 'fabs': abs, 'fneg': lambda a: -a,
             'fsub': lambda a, b: a - b, 'fadd': lambda a, b: a + b, 'fmul': lambda a, b: a * b, 'mul': lambda a, b: a * b, 'zext': lambda a: a, 'sext': lambda a: a, 'trunc': lambda a: a,
             'fptosi': lambda a: int(a), 'select': lambda c, a, b: a if c else b}.get(x[1])
        if f is None: return None
        try: return f(*ys)
        except Exception: return None
    return None

def reads(prog, name, cls):
    """offsets of *this that a query reads"""
    ex, a, fn = run1(prog, name, cls)
    out = set()
    if ex is None: return out
    def w(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'in' and x[1] == THIS: out.add(x[2])
            for y in x: w(y)
    for e in ex:
        if e.ret is not None: w(e.ret)
        for k in e.st.facts: w(k)
    return out

def query(prog, name, cls, env):
    """possible results of a query in a state given by numeric members {('in',THIS,off): v}"""
    ex, a, fn = run1(prog, name, cls)
    if ex is None: return {'unk'}
    out = set()
    for e in ex:
        if consistent(e.st, env) is False: continue
        out.add(evalnum(e.ret, env) if e.kind == 'ret' and e.ret is not None else e.kind)
    return out

def eq(a, b):
    if isinstance(a, str) or isinstance(b, str): return a == b
    return a == b
