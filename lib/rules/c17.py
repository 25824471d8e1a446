"""C17: a generator is silent unless reporting is switched on."""
import re
from model import AnalysisBroken, isconst
from access import root as rt_, spec, find, reads
from flow import flow
from sccp import Sccp, k
from rules.c08 import entries
from rules.c12 import text

META = {'rule': 'Conditional constant propagation over the separation entry points, refreshSolver, constructors, copies and destructors (helpers inlined) with every report setting of the generator fixed to off. '
                'No statement that writes to a standard stream, opens a file, writes a problem file or uses a message handler may lie on a feasible path to a return, unless its text is a warning or an error message.',
        'assumptions': ['messages that precede the end of the process are not considered', 'a warning or error message says so in its text']}
OUT = re.compile(r'^(printf|vprintf|puts|putchar|_?putc|fputc|fprintf|vfprintf|fputs|fwrite|perror|fopen|freopen|popen|system|write)$'
                 r'|(?:^|::)operator<<|basic_ostream|^std::ostream::|basic_ofstream|basic_filebuf|CoinMessageHandler::|::write(Mps|Lp|MpsNative|LpNative|MpsFull)\w*$|^CoinMpsIO::write|(?:^|::)(setLogLevel|messageLevel)$')
DIAG = re.compile(r'(?i)\bwarn|\berror|memory')
STD = re.compile(r'^(stdout|stderr|_ZSt4(cout|cerr|clog))$')

def strings(prog, F, i):
    out = []
    def w(v, d=0):
        if d > 4: return
        if isinstance(v, dict):
            if 'g' in v:
                t = text(prog, v['g'])
                if t is not None: out.append(t)
            for x in v.values():
                if isinstance(x, (dict, list)): w(x, d + 1)
        elif isinstance(v, list):
            for x in v: w(x, d + 1)
        elif isinstance(v, int) and not isinstance(v, bool):
            for o, x in F.val(v):
                if o[0] == 'glob':
                    t = text(prog, o[1])
                    if t is not None: out.append(t)
    for a in i.a: w(a)
    return out

def std(F, v):
    """the stream is a standard one (or unknown); None if it is a local object or the caller's"""
    s = F.val(v)
    if not s: return True
    if any(o[0] == 'glob' and STD.match(o[1]) for o, x in s): return True
    if all(o[0] in ('alloca', 'new', 'arg') for o, x in s): return False
    return True

def switches(prog, cls):
    """offsets of the members that switch reporting on"""
    out = {}
    for l in spec():
        if l[0] not in ('set', 'setn') or l[1] not in prog.ancestors(cls) or not re.match(r'set(LogLevel|\w*Report)\(', l[2]): continue
        for g in l[3].split(','):
            if g.startswith('@'):
                for o, s, n, t, w in prog.layout(cls):
                    if n == g[1:]: out[o] = n
            else:
                n = find(prog, cls, g + '()')
                if not n: raise AnalysisBroken('%s::%s not found' % (cls, g))
                for o in reads(prog, n, cls):
                    if isinstance(o, int): out[o] = g
    return out

def roots(prog):
    out = list(entries(prog))
    for g in prog.generators():
        for n, f in prog.fns.items():
            if f.cls != g: continue
            s = f.qname.rsplit('::', 1)[1]
            if s in ('refreshSolver', 'clone', 'operator=') or s == g and not re.search(r'C1E', n) or s == '~' + g and re.search(r'D2E', n): out.append((n, g))
    return out

def run(prog, r):
    R = roots(prog); prog.inlined([rt_(n, g) for n, g in R])
    for n, cls in R:
        F = flow(prog, n, cls); f = F.fn
        name = prog.fns[n].qname
        sw = switches(prog, cls); sel = {}
        for i in f.all():
            if i.op == 'load':
                t = F.val(i.a[0])
                if t and all(o == ('arg', 0) and x in sw for o, x in t): sel[i.id] = k(0)
        S = Sccp(f, lambda i: sel.get(i.id))
        pred = {}
        for b in S.blk:
            for s in f.succ[b]: pred.setdefault(s, set()).add(b)
        st = [b for b in S.blk if f.blocks[b][-1].op == 'ret']; good = set(st)
        while st:
            for p in pred.get(st.pop(), ()):
                if p not in good: good.add(p); st.append(p)
        seen = 0
        for i in f.all():
            if i.op not in ('call', 'invoke'): continue
            q = f.call(i)['q']
            if not OUT.search(q): continue
            if re.search(r'::set(LogLevel)$|::messageLevel', q): continue
            seen += 1
            where = prog.fns[i.infn()].qname if i.infn() in prog.fns else name
            key = '%s:%s:%s' % (cls, where, q)
            if i.blk not in S.blk: r.ok('off', key); continue
            if i.blk not in good: r.ok('fatal', key); continue
            if re.search(r'operator<<|ostream', q) and not std(F, i.a[0]): r.ok('local stream', key); continue
            if q in ('fprintf', 'vfprintf') and not std(F, i.a[0]): r.ok('given stream', key); continue
            if q in ('fputs', 'fwrite', 'fputc', 'putc', '_putc') and not std(F, i.a[-1]): r.ok('given stream', key); continue
            t = strings(prog, F, i)
            if q == 'fopen' and any(re.match(r'rb?$', x) for x in t): r.ok('input', key); continue
            if any(DIAG.search(x) for x in t) or continues(prog, F, i): r.ok('diagnostic', key); continue
            r.bad('output', key + (':' + t[0].strip()[:40] if t else ''), '%s: %s writes output (%s%s) although reporting is off' % (i.loc(), where, q, ' "%s"' % t[0].strip() if t else ''))
        if not seen: r.ok('no output statement', name)
    r.need('no output statement', 60); r.need('off', 5)

def continues(prog, F, i):
    """an output statement directly after a diagnostic in the same block continues it"""
    f = F.fn
    for j in reversed([j for j in f.blocks[i.blk] if j.pos < i.pos and j.op in ('call', 'invoke')]):
        if not OUT.search(f.call(j)['q']): continue
        if any(DIAG.search(x) for x in strings(prog, F, j)): return True
    return False
