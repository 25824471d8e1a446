"""C04: every setting keeps exactly the values it accepts."""
from access import *
from access import _num
from cells import _ord
from copies import *
META = {'rule': 'For every setter of the specification the disjunctive dataflow summary is compared with the documented contract on every region of the argument that either the code or the contract distinguishes: accepted values are what the query returns afterwards, rejected ones change nothing (or raise the error), and no other setting is touched.',
        'assumptions': ['virtual setters are those of the class itself (a derived class may override them)']}

def points(ty, cs):
    pts = set()
    if ty == 'i1': return [0, 1]
    if ty == 'double':
        for c in cs:
            h = 1e-3 * max(abs(c), 1e-6)
            pts |= {float(c), c - h, c + h, c - 1.0, c + 1.0}
        cc = sorted(set(float(c) for c in cs))
        for x, y in zip(cc, cc[1:]): pts.add((x + y) / 2)
        pts |= {-7.5, 1e9, 0.25}
    else:
        for c in cs: pts |= {int(c), int(c) - 1, int(c) + 1}
        pts |= {-9, 0, 77}
    return sorted(pts)

def speccons(acc):
    return [float(x) for x in re.findall(r'(?<![\w.])-?\d[\d.]*(?:e-?\d+)?', acc)]

def others(prog, lines, cls, mine):
    """offsets read by the other settings of the class"""
    out = {}
    for l in lines:
        for g in l:
            if g in mine: continue
            if g.startswith('@'):
                o = prog.field_off(cls, g[1:]) if any(f[2] == g[1:] for f in prog.layout(cls)) else None
                if o is not None: out[o] = g
            else:
                n = find(prog, cls, g + '()')
                if n:
                    for o in reads(prog, n, cls): out.setdefault(o, g)
    return out

def run(prog, r):
    S = spec()
    todo = []
    for l in S:
        if l[0] in ('set', 'setn', 'rec'):
            n = find(prog, l[1], l[2])
            if n: todo.append(root(n, l[1]))
        if l[0] in ('set', 'setn'):
            for g in l[3].split(','):
                n = find(prog, l[1], g + '()') if not g.startswith('@') else None
                if n: todo.append(root(n, l[1]))
    prog.inlined(todo)
    allg = {}
    for l in S:
        if l[0] in ('set', 'setn'): allg.setdefault(l[1], []).append(l[3].split(','))
    for l in S:
        if l[0] == 'set': one(prog, r, l, allg)
        elif l[0] == 'setn': many(prog, r, l, allg)
        elif l[0] == 'rec' and not l[2].startswith(l[1] + '('): record(prog, r, l)
    rows(prog, r)
    replaced(prog, r)
    r.need('setting', 90)

def one(prog, r, l, allg):
    _, cls, sig, gs, acc, els = l
    n = find(prog, cls, sig)
    what = '%s::%s' % (cls, sig)
    if not n: r.undecided('setting', what + ' not found'); return
    ex, a, fn = run1(prog, n, cls)
    if ex is None: r.undecided('setting', '%s: %s' % (what, a)); return
    V = a.args[1]; ty = fn.args[1]['ty']
    cs = {c for e in ex for c in consts(e.st.facts, V)} | set(speccons(acc))
    for e in ex:
        for v in writes(a, e, fn).values(): cs |= consts([v], V)
    getters = gs.split(',')
    oth = others(prog, allg[cls], cls, set(getters) | alias(prog, cls, getters, allg[cls]))
    bad = und = None
    for v in points(ty, cs):
        want = acc == 'any' or bool(eval(acc, {'v': v}))
        es = [e for e in ex if consistent(e.st, {V: v}) is not False]
        if not es: und = 'no path for %r' % v; continue
        for e in es:
            w = values(e, a, {V: v})
            for o in w:
                if o in oth: bad = 'value %r also changes what %s reports' % (v, oth[o])
            if want or els == 'zero':
                goal = v if want else 0
                if e.kind != 'ret': bad = 'value %r is refused by an error instead of being accepted' % v; continue
                env = {('in', THIS, o): x for o, x in w.items() if x != 'unk'}
                for g in getters:
                    if g.startswith('@'):
                        if not any(f[2] == g[1:] for f in prog.layout(cls)):
                            if len(w) == 1 and goal in w.values(): continue
                            und = 'member %s not found' % g; continue
                        q = {w.get(prog.field_off(cls, g[1:]), 'kept')}
                    else:
                        gn = find(prog, cls, g + '()')
                        if not gn: und = 'query %s not found' % g; continue
                        if not (reads(prog, gn, cls) & set(w)): q = {'kept'}
                        else: q = query(prog, gn, cls, env)
                    if 'unk' in q: und = 'result of %s after %r not tracked' % (g, v)
                    elif any(not eq(x, goal) for x in q): bad = 'after setting %r, %s returns %s' % (v, g, 'its old value' if 'kept' in q else sorted(map(str, q)))
            else:
                if els == 'throw' and e.kind == 'ret': bad = 'value %r outside the documented range (%s) is not refused by an error' % (v, acc)
                ch = {o: x for o, x in w.items() if any(o in rd for rd in [getoffs(prog, cls, g) for g in getters])}
                if ch: bad = 'value %r outside the documented range (%s) is stored' % (v, acc)
    if bad: r.bad('setting', what, '%s: %s: %s' % (fn.where(), what, bad))
    elif und: r.undecided('setting', '%s: %s' % (what, und))
    else: r.ok('setting', '%s [%s]' % (what, acc))

def getoffs(prog, cls, g):
    if g.startswith('@'): return {prog.field_off(cls, g[1:])} if any(f[2] == g[1:] for f in prog.layout(cls)) else set()
    n = find(prog, cls, g + '()')
    return reads(prog, n, cls) if n else set()

def alias(prog, cls, getters, lines):
    """queries of other lines that the specification itself ties to the same setting"""
    out = set()
    for l in lines:
        if set(l) & set(getters): out |= set(l)
    return out

def many(prog, r, l, allg):
    _, cls, sig, gs = l; n = find(prog, cls, sig); what = '%s::%s' % (cls, sig)
    if not n: r.undecided('setting', what + ' not found'); return
    ex, a, fn = run1(prog, n, cls)
    if ex is None: r.undecided('setting', '%s: %s' % (what, a)); return
    for k, g in enumerate(gs.split(',')):
        off = getoffs(prog, cls, g); V = a.args[k + 1]
        bad = und = None
        for e in ex:
            w = {o: x for o, x in writes(a, e, fn).items() if o in off}
            if e.kind != 'ret' or len(w) != 1: bad = 'argument %d does not reach %s on every path' % (k + 1, g)
            else:
                x = next(iter(w.values()))
                if x != V and not (x[0] == 'e' and x[1] in ('zext', 'trunc') and x[2] == V):
                    if has_unknown(x): und = str(x)
                    else: bad = '%s reports something else than argument %d' % (g, k + 1)
        if bad: r.bad('setting', what + ':' + g, '%s: %s: %s' % (fn.where(), what, bad))
        elif und: r.undecided('setting', what + ' ' + und)
        else: r.ok('setting', what + ' -> ' + g)

def record(prog, r, l):
    _, cls, sig, mem = l; n = find(prog, cls, sig); what = '%s::%s' % (cls, sig)
    if not n: r.undecided('record', what + ' not found'); return
    ex, a, fn = run1(prog, n, cls)
    if ex is None: r.undecided('record', '%s: %s' % (what, a)); return
    import rules.c01 as c01
    src = a.args[1]
    lay = prog.layout(cls)
    base = None
    for off, size, name, ty, owner in lay:
        if not name.startswith(mem + '.'): continue
        if base is None: base = off          # first member (vtable pointer of the record)
    if base is None: r.undecided('record', what + ': member %s not found' % mem); return
    # offset of the record: the smallest offset of its members minus that member's offset in its class
    pc = re.search(r'\((\w+)', sig).group(1)
    names = {f[2]: f[0] for f in prog.layout(pc)}
    for off, size, name, ty, owner in lay:
        if not name.startswith(mem + '.') or name[len(mem) + 1:] not in names: continue
        so = names[name[len(mem) + 1:]]
        bad = und = None
        for e in ex:
            if e.kind != 'ret': continue
            for st, v in field_states(a, e.st, THIS, off, size, next(iter(fn.ins.values()))):
                s = c01.same(a, st, v, src, so, size)
                if s: continue
                if s is None: und = 1
                else: bad = 1
        if bad: r.bad('record', what + ':' + name, '%s: %s: %s is not taken from the given parameter object' % (fn.where(), what, name))
        elif und: r.undecided('record', what + ' ' + name)
        else: r.ok('record', what + ' ' + name)

def replaced(prog, r):
    """a setter that replaces storage the object owns releases it"""
    prefetch(prog)
    todo = []
    for cls in api_classes(prog):
        for m in prog.classes[cls]['meth']:
            if m['acc'] == 'public' and re.match(r'set[A-Z_]', m['n']) and m['ln'] in prog.fns and prog.fns[m['ln']].cls == cls: todo.append((cls, m['ln']))
    prog.inlined([n for c, n in todo])
    for cls, n in todo:
        own = owned(prog, cls)
        if not own: continue
        ex, a, fn = run1(prog, n)
        if ex is None: continue
        anyi = next(iter(fn.ins.values()))
        for off, size, name, ty, owner in prog.layout(cls):
            if off not in own or is_scratch(cls, name, owner): continue
            old = ('in', THIS, off); bad = None; touched = False
            for e in ex:
                if e.kind != 'ret': continue
                for st, v in field_states(a, e.st, THIS, off, size, anyi):
                    rel = any(base_of(p)[0] == old for p in st.rel)
                    null = implied(st.facts, lambda f: isnull(f, old))
                    if v != old:
                        touched = True
                        same = implied(st.facts, lambda f: f.get(('eq',) + _ord(old, v)) is True)
                        if not rel and not null and not same: bad = 'replaces %s without releasing what it held' % name
                        elif rel and implied(st.facts, lambda f: f.get(('eq',) + _ord(old, v)) is True): bad = 'keeps the storage in %s that it has just released' % name
                    elif rel and not null: bad = 'leaves %s pointing to storage that it has released' % name
            if bad: r.bad('replaced', '%s:%s' % (fn.dem, name), '%s: %s %s' % (fn.where(), fn.dem, bad))
            elif touched: r.ok('replaced', '%s %s' % (fn.dem, name))

def rows(prog, r):
    """CglKnapsackCover::setTestedRowIndices: the generator keeps its own copy of exactly the given rows"""
    n = find(prog, 'CglKnapsackCover', 'setTestedRowIndices(int, int const*)')
    if not n: r.undecided('setting', 'setTestedRowIndices not found'); return
    ex, a, fn = run1(prog, n, 'CglKnapsackCover')
    if ex is None: r.undecided('setting', 'setTestedRowIndices: %s' % a); return
    try: on, op = prog.field_off('CglKnapsackCover', 'numRowsToCheck_'), prog.field_off('CglKnapsackCover', 'rowsToCheck_')
    except Exception: on = op = None
    if on is None or op is None: r.undecided('setting', 'setTestedRowIndices: members renamed'); return
    num = a.args[1]
    bad = None
    for v in (-1, 0, 1, 5):
        for e in ex:
            if consistent(e.st, {num: v}) is False or e.kind != 'ret': continue
            w = writes(a, e, fn)
            if w.get(on) != num: bad = 'the number of rows is not stored'
            p = w.get(op, ('in', THIS, op))
            if v > 0:
                b = base_of(p)[0]
                if b[0] != 'new' or b[2] != ('lin', 0, ((num, 4),)): bad = 'the rows are not stored in a block of the given length'
                elif not any(x[0] == 'copy' and x[1] == 0 and base_of(x[2])[0] == a.args[2] and x[3] == b[2] for x in e.st.arr.get(b, ())): bad = 'the stored rows are not the given rows'
            elif p != NULL and (p in e.st.rel or e.st.released(p)): bad = 'a released array stays in use'
    if bad: r.bad('setting', 'CglKnapsackCover::setTestedRowIndices', '%s: setTestedRowIndices: %s' % (fn.where(), bad))
    else: r.ok('setting', 'CglKnapsackCover::setTestedRowIndices')
