"""C03: a freshly constructed object is completely initialised and has the documented settings."""
from access import *
from copies import *
from rules.c04 import points, speccons, getoffs
META = {'rule': 'Dataflow summary of every constructor (default construction as a caller sees it, including the default arguments of the headers): every member is written on every path, queries return the documented defaults, constructor arguments end in the settings they are documented to set, and all other members get the same values as by default construction.',
        'assumptions': ['library members initialise themselves', 'listed work areas are written before use']}

def number(x):
    if x == 'null': return 'null'
    if x in ('True', 'False'): return int(x == 'True')
    return float(x) if re.search(r'[.e]', x) else int(x)

def init_states(prog, name):
    ex, a, fn = run1(prog, name)
    if ex is None: return None, a, fn
    return [e for e in ex if e.kind == 'ret'], a, fn

def members(prog, cls, ex, a, fn):
    """{offset: set of values} after construction"""
    out = {}
    any_i = next(iter(fn.ins.values()))
    for off, size, name, ty, owner in prog.layout(cls):
        out[off] = {v for e in ex for st, v in field_states(a, e.st, THIS, off, size, any_i)}
    return out

def run(prog, r):
    S = spec()
    classes = sorted({l[1] for l in S if l[0] == 'def'})
    names = {}
    for cls in classes:
        n = '_Z9vpDefaultI%d%sEvPv' % (len(cls), cls)
        names[cls] = n
    todo = []
    for l in S:
        if l[0] == 'def' and not l[2].startswith('@'):
            n = find(prog, l[1], l[2] + '()')
            if n: todo.append(root(n, l[1]))
        if l[0] in ('ctor', 'rec'):
            n = find(prog, l[1], l[2])
            if n: todo.append(n if l[2].startswith(l[1] + '(') else root(n, l[1]))
    prefetch(prog)
    prog.inlined(todo)
    try: prog.inlined([names[c] for c in classes])
    except AnalysisBroken: pass
    deflt = {}
    for cls in classes:
        try: ex, a, fn = init_states(prog, names[cls])
        except AnalysisBroken: ex = None; a = 'not default constructible'; fn = None
        if not ex: r.undecided('default', '%s: %s' % (cls, a)); continue
        mem = members(prog, cls, ex, a, fn); deflt[cls] = mem
        env = {('in', THIS, o): evalnum(next(iter(v)), {}) for o, v in mem.items() if len(v) == 1}
        env = {k: v for k, v in env.items() if v != 'unk'}
        for l in S:
            if l[0] != 'def' or l[1] != cls: continue
            want = number(l[3]); g = l[2]; what = '%s %s' % (cls, g)
            if g.startswith('@'):
                f = [x for x in prog.layout(cls) if x[2] == g[1:]]
                if not f: r.undecided('default', what + ' not found'); continue
                got = {evalnum(v, {}) if v != ('in', THIS, f[0][0]) else 'uninitialised' for v in mem[f[0][0]]}
            else:
                n = find(prog, cls, g + '()')
                if not n: r.undecided('default', what + ' not found'); continue
                got = query(prog, n, cls, env)
                if got == {'unk'}:
                    rd = reads(prog, n, cls)
                    if any(('in', THIS, o) in mem.get(o, ()) for o in rd): got = {'uninitialised'}
            if 'unk' in got: r.undecided('default', what)
            elif all(eq(x, want) or (want == 0 and x == 'null') or (want == 'null' and x == 0) for x in got): r.ok('default', '%s = %s' % (what, l[3]))
            else: r.bad('default', what, '%s: after default construction %s%s is %s instead of %s' % (cls, 'member ' if g[0] == '@' else '', g.lstrip('@'), sorted(map(str, got)), l[3]))
    # every constructor
    for cls in api_classes(prog):
        for n in functions(prog, cls)['ctor']:
            ex, a, fn = init_states(prog, n)
            if not ex: r.undecided('initialised', '%s: %s' % (fn.dem, a)); continue
            mem = members(prog, cls, ex, a, fn)
            for off, size, name, ty, owner in prog.layout(cls):
                if is_scratch(cls, name, owner): continue
                if any(v == ('in', THIS, off) or v == ('uninit',) or v == ('undef',) for v in mem[off]):
                    r.bad('initialised', '%s:%s' % (fn.dem, name), '%s: %s leaves member %s uninitialised%s' % (fn.where(), fn.dem, name, ' on some path' if len(mem[off]) > 1 else ''))
                else: r.ok('initialised', '%s %s' % (fn.dem, name))
            others(prog, r, S, cls, n, fn, mem, deflt)
    for l in S:
        if l[0] == 'ctor': ctor(prog, r, l, S, deflt)
        if l[0] == 'rec' and l[2].startswith(l[1] + '('):
            from rules.c04 import record
            record(prog, r, l)
    r.need('default', 200); r.need('initialised', 300)

def others(prog, r, S, cls, n, fn, mem, deflt):
    """constructors without a line of their own: settings that no argument determines have their defaults; storage of the caller is not taken over"""
    spec_ = {find(prog, l[1], l[2]) for l in S if l[0] == 'ctor' and l[1] == cls}
    dm = deflt.get(cls, {}); own = owned(prog, cls)
    offs = {}
    for l in S:
        if l[0] == 'def' and l[1] == cls:
            for o in getoffs(prog, cls, l[2]): offs.setdefault(o, l[2])
    arg = lambda v: contains(v, lambda x: x[0] == 'arg' and x != THIS)
    for off, size, name, ty, owner in prog.layout(cls):
        if is_scratch(cls, name, owner): continue
        if off in own and len(fn.args) > 1 and any(base_of(v)[0][0] == 'arg' and base_of(v)[0] != THIS for v in mem[off]):
            r.bad('argument', '%s:%s' % (fn.dem, name), '%s: %s keeps the array of its caller in %s, which the object will release' % (fn.where(), fn.dem, name))
        elif off in own and len(fn.args) > 1: r.ok('argument', '%s %s' % (fn.dem, name))
        if n in spec_ or off not in offs or off not in dm or any(arg(v) for v in mem[off]): continue
        got, want = mem[off], dm[off]
        if all(isc(v) for v in got | want) and len(want) == 1:
            if got == want: r.ok('same-default', '%s %s' % (fn.dem, name))
            else: r.bad('same-default', '%s:%s' % (fn.dem, name), '%s: %s sets %s to %s where default construction gives %s' % (fn.where(), fn.dem, name, sorted(str(v[1]) for v in got), sorted(str(v[1]) for v in want)))

def ctor(prog, r, l, S, deflt):
    _, cls, sig, gs = l; n = find(prog, cls, sig); what = '%s::%s' % (cls, sig)
    if not n: r.undecided('argument', what + ' not found'); return
    ex, a, fn = run1(prog, n)
    if ex is None: r.undecided('argument', '%s: %s' % (what, a)); return
    any_i = next(iter(fn.ins.values()))
    used = set()
    rets = [e for e in ex if e.kind == 'ret']
    mem = members(prog, cls, rets, a, fn)
    for k, g in enumerate(gs.split(',')):
        if g == '-': continue
        own = None
        if '{' in g: g, own = g[:-1].split('{')
        V = a.args[k + 1]
        offs = getoffs(prog, cls, g); used |= offs
        sl = [x for x in S if x[0] == 'set' and x[1] == cls and g in x[3].split(',') and x[5] == 'throw']
        bad = und = None
        vals = set().union(*[mem.get(o, set()) for o in offs]) if offs else set()
        if not offs: und = 'query %s not found' % g
        elif not (V in vals or any(contains(v, lambda x: x == V) for v in vals)): bad = 'argument %d does not reach %s' % (k + 1, g)
        elif any(not contains(v, lambda x: x == V) and v != V for v in vals): bad = 'argument %d reaches %s only on some paths' % (k + 1, g)
        if sl and not bad and not und:
            acc = own or sl[0][4]
            for v in points(fn.args[k + 1]['ty'], {c for e in ex for c in consts(e.st.facts, V)} | set(speccons(acc))):
                ok = bool(eval(acc, {'v': v}))
                ks = {e.kind for e in ex if consistent(e.st, {V: v}) is not False}
                if ok and 'ret' not in ks: bad = 'the valid value %r is refused' % v
                if not ok and 'ret' in ks: bad = 'the value %r outside the documented range (%s) is accepted' % (v, acc)
        if bad: r.bad('argument', what + ':' + g, '%s: %s: %s' % (fn.where(), what, bad))
        elif und: r.undecided('argument', what + ' ' + und)
        else: r.ok('argument', '%s -> %s' % (what, g))
    # members that no argument determines
    dm = deflt.get(cls, {})
    for off, size, name, ty, owner in prog.layout(cls):
        if off in used or is_scratch(cls, name, owner) or off not in dm: continue
        got, want = mem[off], dm[off]
        if any(contains(v, lambda x: x[0] == 'arg' and x != THIS) for v in got): continue
        if all(isc(v) for v in got | want):
            if want <= got: r.ok('same-default', '%s %s' % (what, name))
            else: r.bad('same-default', '%s:%s' % (what, name), '%s: %s sets member %s to %s where default construction gives %s' % (fn.where(), what, name, sorted(map(str, got)), sorted(map(str, want))))
