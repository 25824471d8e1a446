"""C09: a separation call depends on its arguments and its own object only."""
import re
from model import AnalysisBroken
from access import root
from rules.c08 import entries
from paths import Paths

META = {'rule': 'Forward must-write dataflow over every separation entry point with all helpers inlined: a global or static variable that Cgl ever writes is written before it is read on every path of the call; the process-wide random generator is seeded with a constant before use on every path; clocks are read only by the classes with a documented time limit; environment and locale are never consulted.',
        'assumptions': ['constant tables are never written (checked: no store reaches them)']}
SEED = re.compile(r'^(CoinSeedRandom|srand|srand48)$')
RAND = re.compile(r'^(CoinDrand48|rand|random|drand48|lrand48|std::rand|std::random_device.*)$')
CLOCK = re.compile(r'^(CoinCpuTime|CoinWallclockTime|CoinGetTimeOfDay|CoinCpuTimeJustChildren|time|clock|gettimeofday|clock_gettime|std::chrono.*::now)$')
ENV = re.compile(r'^(getenv|secure_getenv|setenv|putenv|setlocale|getpid|gethostname|std::getenv)$')
# classes whose documented time limit needs the clock
TIMED = {'Cgl012Cut': 'maxSeconds', 'CglZeroHalf': 'maxSeconds', 'CglRedSplit2': 'timeLimit', 'CglProbing': 'maxSeconds', 'CglCutGenerator': 'maxSeconds'}

def written(prog, more):
    out = {}
    for n, f in list(prog.fns.items()) + more:
        for i in f.all():
            ops = []
            if i.op == 'store': ops = [i.a[1]]
            elif i.op in ('call', 'invoke'):
                q = f.call(i)['q']
                if q.startswith('llvm.mem'): ops = [i.a[0]]
            for v in ops:
                r, o, _ = f.ptr(v)
                if r[0] == 'glob':
                    g = prog.globals.get(r[1])
                    if g and not g['const'] and not r[1].startswith('_ZTV'): out.setdefault(r[1], []).append(i)
    return out

def src(prog, i, f):
    return prog.fns[i.infn()].qname if i.infn() in prog.fns else f.qname

def run(prog, r):
    R = entries(prog)
    inl = {}
    prog.inlined([root(n, g) for n, g in R])
    wr = written(prog, [(n, prog.inlined([root(n, g)])[n]) for n, g in R])
    for n, g in R:
        f = prog.inlined([root(n, g)])[n]
        def address(v):
            """is the value computed from an address, which differs from run to run?"""
            st = [v]; seen = set()
            while st:
                v = st.pop()
                if not isinstance(v, int):
                    if isinstance(v, dict) and 'ptrtoint' in str(v.get('ce', '')): return True
                    continue
                if v in seen or v not in f.ins: continue
                seen.add(v); j = f.ins[v]
                if j.op == 'ptrtoint': return True
                if j.op == 'phi': st += [x for x, b in j.d['in']]
                elif j.op not in ('load', 'call', 'invoke', 'alloca', 'getelementptr'): st += j.a
            return False
        def ev(i):
            """list of (kind, name)"""
            if i.op == 'load':
                p, o, _ = f.ptr(i.a[0])
                if p[0] == 'glob' and p[1] in wr: return [('use', p[1])]
            elif i.op == 'store':
                p, o, _ = f.ptr(i.a[1])
                if p[0] == 'glob' and p[1] in wr: return [('seed' if address(i.a[0]) else 'def', p[1])]
            elif i.op in ('call', 'invoke'):
                q = f.call(i)['q']
                if q.startswith('llvm.'): return []
                if SEED.match(q):
                    if i.a and address(i.a[0]): return [('seed', q)]
                    return [('def', '<random generator>')]
                if RAND.match(q): return [('use', '<random generator>')]
                if CLOCK.match(q): return [('clock', q)]
                if ENV.match(q): return [('env', q)]
                out = []
                for a in i.a:
                    p, o, _ = f.ptr(a)
                    g = prog.globals.get(p[1]) if p[0] == 'glob' else None
                    if g and not g['const'] and not g['decl'] and not p[1].startswith(('_ZTV', '_ZTI', '_ZTS', '.str')) and g.get('src'): out.append(('use', p[1]))
                return out
            return []
        evs = {}
        for b, L in enumerate(f.blocks):
            x = [(i, e) for i in L for e in ev(i)]
            if x: evs[b] = x
        # must-written on block entry
        allg = set(wr) | {'<random generator>'}
        inn = {b: set(allg) for b in range(len(f.blocks))}; inn[0] = set()
        order = f.rpo(); ch = True
        def out(b):
            s = set(inn[b])
            for i, (k, nm) in evs.get(b, ()): 
                if k == 'def': s.add(nm)
            return s
        while ch:
            ch = False
            for b in order:
                if b == 0: continue
                ps = [p for p in f.pred[b]]
                s = set.intersection(*[out(p) for p in ps]) if ps else set(allg)
                if s != inn[b]: inn[b] = s; ch = True
        nuse = 0
        reach = set(order)
        for b in sorted(evs):
            if b not in reach: continue
            s = set(inn[b])
            for i, (k, nm) in evs[b]:
                at = src(prog, i, f)
                if k == 'def': s.add(nm)
                elif k == 'use':
                    nuse += 1
                    if nm in s: r.ok('carry-over', '%s in %s' % (nm, at))

                    else: r.bad('carry-over', '%s:%s' % (at, nm), '%s: %s reads %s, which still holds what an earlier call or another object left there' % (i.loc(), f.qname, nm if nm.startswith('<') else prog.globals[nm].get('src') or nm))
                elif k == 'seed': r.bad('carry-over', '%s:%s' % (at, nm), '%s: %s puts a value computed from an address into process-wide state (%s)' % (i.loc(), at, nm))
                elif k == 'clock':
                    c = at.split('::')[0]
                    if c in TIMED or any(a in TIMED for a in prog.ancestors(c) if a != 'CglCutGenerator'): r.ok('clock', '%s for %s' % (at, TIMED.get(c)))
                    else: r.bad('clock', '%s:%s' % (at, nm), '%s: %s reads the clock (%s) although it has no time limit' % (i.loc(), at, nm))
                else: r.bad('environment', '%s:%s' % (at, nm), '%s: %s consults %s' % (i.loc(), at, nm))
        r.ok('entry', '%s: %d reads of process-wide state' % (f.qname, nuse))
    r.need('entry', 20)
