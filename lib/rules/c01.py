"""C01: a copy is an equivalent generator."""
import re
from copies import *
from rules import c02
from rules.c08 import entries
from access import root as rt_
from flow import flow
META = {'rule': 'Per-field dataflow summary of every copy constructor, assignment operator and clone(): on every path each member of the result must hold the value of the same member of the source (for owned storage: a block whose content is copied from the source block), unless the member is a listed work area.',
        'assumptions': ['library classes copy themselves faithfully', 'listed work areas are overwritten before use']}

def same(a, st, v, src, off, size):
    """True/False/None: does v equal the source member"""
    want = ('in', src, off)
    if v == want: return True
    if v[0] == 'obj' and v[1] == 'copy':
        b, o, ix = base_of(v[3])
        if ix is None and b == src and o == off: return True
        return None if has_unknown(v) else False
    if v[0] == 'c':
        def p(f):
            if v == NULL: return isnull(f, want)
            lo, ls, hi, hs, ne, eq = interval(f, want)
            if eq is not None: return eq[1] == v[1]
            if f.get(('truth', want)) is not None and v[1] in (0, 1): return f[('truth', want)] == bool(v[1])
            return lo == hi == v[1]
        return implied(st.facts, p)
    if v == ('uninit',): return False
    if has_unknown(v) or v[0] in ('obj', 'e', 'mcall'): return None
    return False

def block_copy(a, st, v, src, off):
    """True if the fresh block v has its content from the block that the source member points to; None unknown"""
    b, po, ix = base_of(v)
    if b[0] == 'clone': return b[1] == ('in', src, off)
    if b[0] != 'new': return False
    ev = st.arr.get(b)
    want = ('in', src, off)
    if ev:
        for e in ev:
            if e[0] == 'copy':
                sb, so, sx = base_of(e[2])
                if sb == want and so == 0 and sx is None and (e[1] == po): return True
        if any(e[0] in ('unk', 'each') for e in ev): return None
        return False
    # an object: copied as a whole, or member by member
    c = st.cells.get((b, po))
    if c is not None and c[0] == 'obj' and c[1] == 'copy': return base_of(c[3])[0] == want
    if c is not None and c[0] in ('mut', 'unk'): return None
    mine = [(k, x) for k, x in st.cells.items() if k[0] == b and isinstance(k[1], int)]
    if any(x == ('in', want, k[1]) or (x[0] == 'alts') for k, x in mine): return True
    if any(k[0] == b and isinstance(k[1], tuple) and x[0] == 'rc' and x[1] == want for k, x in st.cells.items()): return True
    return None if any(not isc(x) and x != ('uninit',) and not (x[0] == 'p' and x[1][0] == 'glob') for k, x in mine) else False

def tested(prog):
    """{class: offsets of pointers whose being null decides something in separation (releases do not count)"""
    out = {}
    R = entries(prog)
    prog.inlined([rt_(n, g) for n, g in R])
    for n, g in R:
        F = flow(prog, n, g); f = F.fn; rel = set()
        for i in f.all():
            if i.op in ('call', 'invoke') and re.match(r'operator delete|free$', f.call(i)['q']): rel |= {(x, i.blk) for x in F.val(i.a[0])}
        for i in f.all():
            if i.op != 'icmp' or not any(isinstance(x, dict) and 'null' in x for x in i.a): continue
            for x in i.a:
                if isinstance(x, int) and f.ins[x].op == 'load':
                    t = F.val(f.ins[x].a[0])
                    if len(t) != 1: continue
                    (o, off), = t
                    if o != ('arg', 0) or not isinstance(off, int): continue
                    br = f.blocks[i.blk][-1]
                    v = F.val(x)
                    if any(b in f.succ[i.blk] and y in v for y, b in rel): continue
                    out.setdefault(g, set()).add(off)
    return out

def present(prog, cls, f, src, own, lens):
    """facts say that the source has some data"""
    for o in own:
        if f.get(('eq',) + c02._ord(('in', src, o), NULL)) is False: return True
    ns = {x for k, e in lens.items() for x in re.findall(r'[A-Za-z_]\w*', e) if x != 'ROWS'} | {x for l in c02.EMPTY_IF.get(cls, {}).values() for x in l}
    for x in ns:
        try: o = prog.field_off(cls, x)
        except Exception: continue
        lo, ls, hi, hs, ne, eq = interval(f, ('in', src, o))
        if lo > 0 or lo == 0 and ls or 0 in ne or ('c', 0) in ne or eq is not None and eq[1]: return True
    return False

def run(prog, r):
    prefetch(prog)
    nulls = tested(prog)
    ncls = 0
    for cls in api_classes(prog):
        fs = functions(prog, cls); lay = prog.layout(cls)
        own = owned(prog, cls)
        ncls += 1
        for kind in ('copy', 'assign', 'clone'):
            for n in fs[kind]:
                ex, a, fn = summary(prog, n)
                if a is None: r.undecided('member-copied', '%s: %s' % (fn.dem, ex)); continue
                any_i = next(iter(fn.ins.values()))
                for off, size, name, ty, owner in lay:
                    if is_scratch(cls, name, owner): continue
                    bad = und = None
                    for e, dst, src in ends(kind, ex):
                        if dst is None or dst[0] not in ('arg', 'new'): und = 'result not tracked'; continue
                        for st, v in field_states(a, e.st, dst, off, size, any_i):
                            if kind == 'assign' and v == ('in', dst, off):
                                # untouched: only right if nothing was to be done
                                bad = 'keeps its old value'; continue
                            s = same(a, st, v, src, off, size)
                            if s: continue
                            g = GUARDED.get((cls, name))
                            if g and isc(v) and implied(st.facts, lambda f: isnull(f, ('in', src, prog.field_off(cls, g)))): continue
                            if ty.rstrip().endswith('*') and (off in own or base_of(v)[0][0] in ('new', 'clone')):
                                if v == ('in', src, off): continue      # shared: the content is the same (C02 decides ownership)
                                if v != NULL:
                                    q = block_copy(a, st, v, src, off)
                                else: q = True
                                if q and off in own:
                                    j = c02.judge(prog, a, st, cls, name, off, v, dst, src, kind, c02.LENGTH.get(cls, {}), any_i, ty)
                                    if j and j[0] == 'bad' and not re.search('allocated|released', j[1]): bad = j[1]; continue
                                if q and v != NULL and base_of(v)[0][0] == 'new' and off in nulls.get(cls, ()) and not implied(st.facts, lambda f: present(prog, cls, f, src, own, c02.LENGTH.get(cls, {}))):
                                    bad = 'becomes an array although the source may have none, and separation treats the two differently'; continue
                                if q: continue
                                if q is None: und = 'content of the new block not tracked'; continue
                                bad = 'points to a block that is not a copy of the source block'; continue
                            if s is None: und = 'value not tracked: %s' % (v,)
                            else: bad = 'is set to %s' % (show(prog, cls, v),)
                    if bad: r.bad('member-copied', '%s:%s' % (fn.dem, name), '%s: %s: member %s of the result %s; it must hold what the source holds' % (fn.where(), fn.dem, name, bad))
                    elif und: r.undecided('member-copied', '%s %s: %s' % (fn.dem, name, str(und)[:200]))
                    else: r.ok('member-copied', '%s %s' % (fn.dem, name))
        # clone must make an object of the same class
        for n in fs['clone']:
            ex, a, fn = summary(prog, n)
            if a is None: continue
            vt = '_ZTV%d%s' % (len(cls), cls)
            for e, dst, src in ends('clone', ex):
                if dst is None or dst[0] != 'new': r.undecided('clone-type', fn.dem); continue
                v = e.st.cells.get((dst, 0))
                if v is None or v[0] != 'p' or v[1][0] != 'glob': r.undecided('clone-type', fn.dem)
                elif v[1][1] == vt: r.ok('clone-type', fn.dem)
                else: r.bad('clone-type', fn.dem, '%s: %s returns an object whose dynamic type is %s' % (fn.where(), fn.dem, v[1][1]))
    # every generator class of the analysed sources defines how it is copied
    for g in prog.generators():
        fs = functions(prog, g)
        if fs['ctor'] or fs['copy']:
            if not fs['clone']: r.bad('has-clone', g, '%s does not define clone(): copies through the base interface would be sliced' % g)
            else: r.ok('has-clone', g)
    r.need('member-copied', 300); r.need('clone-type', 15); r.need('has-clone', 15)

def show(prog, cls, v):
    if v[0] == 'c': return repr(v[1]) if v[1] is not None else 'a null pointer'
    if v[0] == 'in' and v[1][0] == 'arg':
        return 'member %s of %s' % (prog.field(cls, v[2]), ['*this', 'the source'][v[1][1]] if v[1][1] < 2 else '?')
    if v == ('uninit',): return 'an uninitialised value'
    return str(v)[:160]
