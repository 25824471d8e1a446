"""C12: the program text that generateCpp writes recreates the generator."""
import re, os
from model import AnalysisBroken, isconst, cval, REPO
from flow import flow
from sccp import Sccp, k, isk, sgn
from access import spec, find, run1, root as rt_, evalnum, writes, THIS
from rules.c03 import init_states, members
from rules.c04 import getoffs

META = {'rule': 'For every generateCpp: the default value of each member comes from the constructor summary. For the state in which all settings have their defaults, and for every setting with other values (one at a time), '
        'conditional constant propagation decides which output statements can execute; their text (constant formats and strings) is parsed. Every "3" line must name a public member function with the right '
        'number of parameters whose summary stores exactly the printed members, must be written unavoidably when its setting differs from the default and never when it does not; "4" lines only for defaults; the header, '
        'declaration and returned variable name must belong together; every setting that the class itself has a setter for must be recreated.',
        'assumptions': ['the reader of the text uses "3" lines as code and "4" lines as commented defaults', 'doubles are printed to the precision of the conversion']}

# settings that are statistics or problem data, not configuration of the generator
SKIP = {'CglFlowCover': ('setNumFlowCuts',)}
BASE = ('setAggressiveness',)

def text(prog, g):
    x = prog.globals.get(g)
    i = x.get('init') if x else None
    return i.get('str') if isinstance(i, dict) and 'str' in i else None

class Cpp:
    def __init__(self, prog, n, cls):
        self.prog = prog; self.cls = cls; self.F = flow(prog, n, cls); self.fn = self.F.fn
        self.me = ('arg', 1) if self.fn.args and self.fn.args[0].get('sret') else ('arg', 0)
        self.fp = ('arg', self.me[1] + 1); self._mem = {}
        self.stores = [j for j in self.fn.all() if j.op == 'store']
    def member(self, v, d=0):
        """offset of the member of *this that a value is a (converted) copy of"""
        if not isinstance(v, int) or d > 12: return None
        if v not in self._mem: self._mem[v] = self._member(v, d)
        return self._mem[v]
    def _member(self, v, d):
        i = self.fn.ins[v]
        if i.op == 'load':
            t = self.F.val(i.a[0])
            if len(t) == 1:
                (o, x), = t
                if o == self.me: return x
                if o[0] == 'alloca':      # local copy of a member (by value accessor)
                    hit = [j for j in self.stores if any((q, y) == (o, x) for q, y in self.F.val(j.a[1]))]
                    if len(hit) == 1: return self.member(hit[0].a[0], d + 1)
            return None
        if i.op in ('sext', 'zext', 'trunc', 'fpext', 'sitofp', 'freeze', 'bitcast'): return self.member(i.a[0], d + 1)
        if i.op == 'and' and isconst(i.a[1]): return self.member(i.a[0], d + 1)
        if i.op == 'icmp' and isconst(i.a[1]) and cval(i.a[1]) == 0 and i.d['p'] == 'ne': return self.member(i.a[0], d + 1)
        return None
    def other(self, v):
        """offset of the member of a local default object"""
        if not isinstance(v, int): return None
        i = self.fn.ins[v]
        if i.op == 'load':
            t = self.F.val(i.a[0])
            if len(t) == 1:
                (o, x), = t
                if o[0] == 'alloca': return x
            return None
        if i.op in ('sext', 'zext', 'trunc', 'fpext', 'freeze', 'and'): return self.other(i.a[0])
        return None
    def state(self, val, dflt):
        """blocks that execute when the members have the values val (offset -> number)"""
        def num(x):
            if isconst(x): return cval(x)
            o = self.member(x)
            if o is not None: return val.get(o)
            o = self.other(x)
            if o is not None: return dflt.get(o)
            return None
        def fixed(i):
            if i.op == 'load':
                o = self.member(i.id)
                if o is None:
                    o = self.other(i.id); v = dflt.get(o)
                else: v = val.get(o)
                if isinstance(v, bool): v = int(v)
                if isinstance(v, int) and i.ty[0] == 'i': return k(v)
            if i.op == 'fcmp':
                a, b = num(i.a[0]), num(i.a[1])
                if a is None or b is None: return None
                p = i.d['p'][1:] if i.d['p'] not in ('ord', 'uno', 'true', 'false') else i.d['p']
                return k({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'ord': True, 'rd': True}.get(p, False))
            return None
        return Sccp(self.fn, fixed)
    def resolve(self, S, v, d=0):
        """('str', s) | ('num', n) | ('mem', off, llvm type) | None"""
        if d > 20: return None
        if isinstance(v, dict):
            if 'g' in v: s = text(self.prog, v['g']); return ('str', s) if s is not None else None
            if 'c' in v: return ('num', v['c'])
            if 'f' in v: return ('num', cval(v))
            return None
        i = self.fn.ins[v]
        m = self.member(v)
        if m is not None: return ('mem', m, i.ty)
        if i.op == 'phi':
            r = {self.resolve(S, x, d + 1) for x, b in i.d['in'] if (b, i.blk) in S.edge}
            return r.pop() if len(r) == 1 else None
        if i.op == 'select':
            c = S.val(i.a[0])
            if c and c[0] & 1: return self.resolve(S, i.a[1 if c[1] & 1 else 2], d + 1)
            return None
        if i.op == 'getelementptr' and i.d['o'] == 0 and not i.d['v']: return self.resolve(S, i.d['b'], d + 1)
        if i.op == 'load':
            t = self.F.val(i.a[0])
            if len(t) == 1:
                st = [j for j in self.stores if self.F.val(j.a[1]) == t]
                if len(st) == 1: return self.resolve(S, st[0].a[0], d + 1)
            s = self.cell(S, i.a[0])
            if s: return s
        if i.op in ('call', 'invoke') and re.search(r'basic_string.*::(c_str|data)$', self.fn.call(i)['q']): return self.string(S, i.a[0])
        if i.op == 'fptosi' and self.member(i.a[0]) is not None: return ('cut', self.member(i.a[0]))
        c = S.v.get(v)
        if isk(c): return ('num', sgn(c[1]))
        return None
    def addr(self, S, v):
        """(base, constant offset) of an address in the state S"""
        off = 0
        while True:
            if not isinstance(v, int): return (('g', v['g']) if isinstance(v, dict) and 'g' in v else None), off
            i = self.fn.ins[v]
            if i.op != 'getelementptr': return ('v', v), off
            off += i.d['o']
            for x, m in i.d['v']:
                c = S.val(x)
                if not isk(c): return None, 0
                off += sgn(c[1]) * m
            v = i.d['b']
    def string(self, S, v):
        """the constant that the std::string at an address was built from"""
        at = self.addr(S, v)
        if at[0] is None: return None
        hit = set()
        for j in self.fn.all():
            if j.op in ('call', 'invoke') and re.search(r'basic_string.*::(basic_string|operator=|assign)$', self.fn.call(j)['q']) and len(j.a) > 1 and self.addr(S, j.a[0]) == at:
                r = self.resolve(S, j.a[1]); hit.add(r)
            elif j.op in ('call', 'invoke') and re.search(r'basic_string.*::(append|operator\+=|insert|push_back|replace|erase|swap)$', self.fn.call(j)['q']) and self.addr(S, j.a[0]) == at: return None
        return hit.pop() if len(hit) == 1 else None
    def cell(self, S, v):
        """a constant table of string constants"""
        b, off = self.addr(S, v)
        if b is None: return None
        if b[0] == 'g':
            i = (self.prog.globals.get(b[1]) or {}).get('init')
            e = i.get('agg') if isinstance(i, dict) else None
            if e and off % 8 == 0 and 0 <= off // 8 < len(e): return self.resolve(S, e[off // 8])
            return None
        hit = {self.resolve(S, j.a[0]) for j in self.stores if self.addr(S, j.a[1]) == (b, off)}
        return hit.pop() if len(hit) == 1 else None
    def prints(self):
        out = []
        for i in self.fn.all():
            if i.op in ('call', 'invoke'):
                q = self.fn.call(i)['q']
                if q in ('fprintf', 'fputs', 'fwrite', 'fputc', 'putc', 'vfprintf', 'printf', 'puts'): out.append((i, q))
        return out
    def render(self, S, i, q):
        """text with holes: list of str | ('mem', off, ty, conv) | ('?',); None if the text is unknown"""
        if q == 'fputs': r = self.resolve(S, i.a[0]); return [r[1]] if r and r[0] == 'str' else None
        if q in ('fputc', 'putc'): r = self.resolve(S, i.a[0]); return [chr(r[1] & 255)] if r and r[0] == 'num' else None
        if q == 'fwrite':
            r = self.resolve(S, i.a[0]); n = [self.resolve(S, x) for x in i.a[1:3]]
            return [r[1][:n[0][1] * n[1][1]]] if r and r[0] == 'str' and all(x and x[0] == 'num' for x in n) else None
        if q != 'fprintf': return None
        r = self.resolve(S, i.a[1])
        if not r or r[0] != 'str': return None
        fmt = r[1]; args = list(i.a[2:]); out = []; pos = 0
        for m in re.finditer(r'%(%|[-+ #0-9.]*(?:l|h|z)*([a-zA-Z]))', fmt):
            out.append(fmt[pos:m.start()]); pos = m.end()
            if m.group(1) == '%': out.append('%'); continue
            if not args: out.append(('?', 'no argument')); continue
            x = self.resolve(S, args.pop(0)); cv = m.group(2)
            if x is None: out.append(('?',))
            elif x[0] == 'str': out.append(x[1] if cv == 's' else ('bad', '%%%s prints a string' % cv))
            elif x[0] == 'num': out.append(chr(x[1] & 255) if cv == 'c' else str(x[1]))
            elif x[0] == 'cut': out.append(('mem', x[1], 'cut', cv))
            else: out.append(('mem', x[1], x[2], cv))
        out.append(fmt[pos:])
        return out

    def stream(self, S, P):
        """[(first instruction, pieces | None)]: the lines that are written, in order"""
        order = {}; st = [(0, iter(self.fn.succ[0]))]; seen = {0}; post = []
        while st:
            b, it = st[-1]
            for s in it:
                if (b, s) in S.edge and s not in seen: seen.add(s); st.append((s, iter(self.fn.succ[s]))); break
            else: post.append(b); st.pop()
        for n, b in enumerate(reversed(post)): order[b] = n
        at = {i.id: (order.get(i.blk, 0), n) for n, i in enumerate(self.fn.all())}
        out = []; cur = []; first = None
        for i, q in sorted((x for x in P if x[0].blk in S.blk), key=lambda x: at[x[0].id]):
            t = self.render(S, i, q)
            if t is None: out.append((first or i, None)); cur = []; first = None; continue
            for p in t:
                if first is None: first = i
                if not isinstance(p, str): cur.append(p); continue
                while '\n' in p:
                    a, p = p.split('\n', 1)
                    out.append((first or i, cur + [a + '\n'])); cur = []; first = i if p else None
                if p: cur.append(p); first = first or i
            if not cur: first = None
        if cur: out.append((first, cur))
        return out

def enums(prog):
    """values of enumerators, and the values of each enumeration"""
    if hasattr(prog, '_enums'): return prog._enums
    val = {}; by = {}
    for dp, dn_, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if not f.endswith('.hpp'): continue
            t = re.sub(r'//[^\n]*|/\*.*?\*/', '', open(os.path.join(dp, f), errors='replace').read(), flags=re.S)
            for m in re.finditer(r'\benum\s*(\w*)\s*(?::\s*\w+\s*)?\{([^}]*)\}', t):
                x = 0
                for e in m.group(2).split(','):
                    k_ = re.match(r'\s*(\w+)\s*(?:=\s*(-?\w+))?\s*$', e)
                    if not k_: continue
                    if k_.group(2):
                        try: x = int(k_.group(2), 0)
                        except ValueError: x = val.get(k_.group(2), x)
                    val[k_.group(1)] = x; by.setdefault(m.group(1), []).append(x); x += 1
    prog._enums = val, by
    return prog._enums

def effects(prog, cls, name, nargs):
    """what calling the public member function `name` with nargs arguments stores: list of {offset: argument number | constant}"""
    out = []
    anc = prog.ancestors(cls)
    for c in [cls] + [a for a in anc if a != cls]:
        if c not in prog.classes: continue
        ms = [m for m in prog.classes[c]['meth'] if m['n'] == name]
        if not ms: continue
        pub = [m for m in ms if m['acc'] == 'public']
        for m in pub:
            if len(m['pt']) - 2 != nargs: continue
            n = m['ln']
            if n not in prog.fns: out.append(None); continue
            ex, a, fn = run1(prog, n, cls)
            if ex is None: out.append(None); continue
            w = {}
            for e in ex:
                if e.kind != 'ret': continue
                for o, v in writes(a, e, fn).items():
                    for j in range(nargs):
                        if contains_arg(v, a.args[j + 1]): w[o] = ('arg', j, m['pt'][j + 2])
                    if o not in w and evalnum(v, {}) not in ('unk',): w[o] = ('const', evalnum(v, {}))
            out.append(w)
        return out, bool(pub)
    return out, False

def record(prog, cls):
    """(parameter class, offset in cls) that a public getParam() of cls refers to"""
    for m in prog.classes[cls]['meth']:
        if m['n'] == 'getParam' and m['acc'] == 'public' and m['pt'][0].rstrip().endswith('&'):
            pc = re.sub(r'const|&', '', m['pt'][0]).strip()
            names = {f[2]: f[0] for f in prog.layout(pc)}
            for off, size, name, ty, owner in prog.layout(cls):
                x = name.split('.', 1)
                if len(x) == 2 and x[1] in names: return pc, off - names[x[1]]
    return '', 0

def subeffect(prog, cls, sub, name, k_):
    if not sub[0]: return [], False
    es, ok = effects(prog, sub[0], name, k_)
    return [{o + sub[1]: w for o, w in e.items()} if e is not None else None for e in es], ok

def contains_arg(v, a):
    if v == a: return True
    return isinstance(v, tuple) and any(contains_arg(x, a) for x in v)

LINE = re.compile(r'^(\d)  (\w+)((?:\.\w+(?:\(\))?)*)\.(\w+)\((.*)\);\n$', re.S)

def run(prog, r):
    R = sorted((n, f.cls) for n, f in prog.fns.items() if re.match(r'generateCpp(\[|$)', f.qname.rsplit('::', 1)[-1]) and f.cls and f.cls != 'CglCutGenerator' and not n.startswith('_ZZ'))
    prog.inlined([rt_(n, g) for n, g in R])
    S_ = spec(); todo = []
    for n, cls in R:
        for c in list(prog.ancestors(cls)) + [cls]:
            for m in prog.classes.get(c, {'meth': []})['meth']:
                if re.match('set|switch', m['n']) and m['ln'] in prog.fns: todo.append(rt_(m['ln'], cls))
        dn = '_Z9vpDefaultI%d%sEvPv' % (len(cls), cls)
        if dn in prog.fns: todo.append(dn)
        for l in S_:
            if l[0] in ('set', 'setn') and l[1] in (cls, 'CglCutGenerator'):
                for g in l[3].split(','):
                    x = find(prog, cls, g + '()') if not g.startswith('@') else None
                    if x: todo.append(rt_(x, cls))
        sub = record(prog, cls)[0]
        if sub:
            for c in list(prog.ancestors(sub)) + [sub]:
                for m in prog.classes.get(c, {'meth': []})['meth']:
                    if m['n'].startswith('set') and m['ln'] in prog.fns: todo.append(rt_(m['ln'], sub))
    prog.inlined(sorted(set(todo), key=str))
    for n, cls in R: one(prog, r, S_, n, cls)
    r.need('line', 60); r.need('recreated', 40)

def one(prog, r, S_, n, cls):
    G = Cpp(prog, n, cls); fn = G.fn; what = cls + '::generateCpp'
    dn = '_Z9vpDefaultI%d%sEvPv' % (len(cls), cls)
    try: ex, a, dfn = init_states(prog, dn)
    except AnalysisBroken: ex = None
    if not ex: r.undecided('line', what + ': defaults unknown'); return
    mem = members(prog, cls, ex, a, dfn)
    dflt = {o: evalnum(next(iter(v)), {}) for o, v in mem.items() if len(v) == 1}
    dflt = {o: v for o, v in dflt.items() if not isinstance(v, str)}
    lay = {o: (nm, t) for o, s, nm, t, w in prog.layout(cls)}
    P = G.prints()
    # settings: offset -> (setter, getters)
    need = {}
    for l in S_:
        if l[0] in ('set', 'setn') and (l[1] == cls or l[1] == 'CglCutGenerator' and l[2].split('(')[0] in BASE):
            nm = l[2].split('(')[0]
            if nm in SKIP.get(cls, ()): continue
            for g in l[3].split(','):
                for o in getoffs(prog, cls, g):
                    if isinstance(o, int): need.setdefault(o, nm)
    # members that only zero-argument switches set
    for m in prog.classes[cls]['meth']:
        if re.match('switch', m['n']) and m['acc'] == 'public' and m['ln'] in prog.fns:
            e, ok = effects(prog, cls, m['n'], len(m['pt']) - 2)
            for w in e:
                for o in w or {}: need.setdefault(o, m['n'])
    # parameters kept in a parameter object: as far as the class has its own setters for them (spec lines of the class itself)
    eff = {}
    def effect(name, k_):
        if (name, k_) not in eff: eff[(name, k_)] = effects(prog, cls, name, k_)
        return eff[(name, k_)]
    bad = set()
    unknown = [False]
    def flag(rule, key, txt, i):
        if (rule, key) not in bad: bad.add((rule, key)); r.bad(rule, '%s:%s' % (what, key), '%s: %s' % (i.loc() if i else fn.where(), txt))
    var = [None]
    def lines(S, val):
        """[(instruction, marker, offsets set {off: printed ok})] of the statements that can execute"""
        out = []
        for i, q in P:
            if i.blk not in S.blk: continue
            if not any(o == G.fp for o, x in G.F.val(i.a[0] if q == 'fprintf' else i.a[-1])):
                flag('line', 'stream', '%s does not go to the given file' % q, i)
        for i, t in G.stream(S, P):
            if t is None: unknown[0] = True; out.append((i, '?', {})); continue
            s = ''.join(x if isinstance(x, str) else '\1' for x in t); holes = [x for x in t if not isinstance(x, str)]
            for h in holes:
                if h[0] == 'bad': flag('line', s.strip(), 'format and argument disagree: %s' % h[1], i)
                if h[0] == '?' and len(h) > 1: flag('line', s.strip(), 'a conversion has no argument in "%s"' % s.strip(), i)
            m = re.match(r'0#include "([\w.]+)"\n$', s)
            if m: out.append((i, 'inc', m.group(1))); continue
            m = re.match(r'3  (\w+) (\w+);\n$', s)
            if m: out.append((i, 'decl', (m.group(1), m.group(2)))); continue
            m = LINE.match(s)
            if not m and any(h[0] == '?' for h in holes): unknown[0] = True; out.append((i, '?', {})); continue
            if not m: flag('line', s.strip().replace('\1', '%'), 'writes "%s", which is not a call of a member function' % s.strip().replace('\1', '%'), i); out.append((i, '?', {})); continue
            mk, vn, mid, fnm, ar = m.groups(); args = [x.strip() for x in ar.split(',')] if ar.strip() else []
            shown = s[3:].strip().replace('\1', '%')
            sub = None
            if mid == '.getParam()':
                sub = record(prog, cls); mid = ''
            if mid: flag('line', mk + shown, 'writes "%s", which does not compile' % shown, i)
            if mk not in '34': flag('line', mk + shown, 'marks "%s" as section %s' % (shown, mk), i)
            es, ok = effect(fnm, len(args)) if sub is None else subeffect(prog, cls, sub, fnm, len(args))
            if not ok or not es: flag('line', mk + shown, 'writes "%s", but %s has no public member function %s with %d parameter(s)' % (shown, cls, fnm, len(args)), i); continue
            offs = {}; hk = 0; hs = list(holes)
            for e in es:
                if e is None: unknown[0] = True; continue
                for o, w in e.items():
                    if w[0] == 'const': offs[o] = ('const', w[1])
                    else:
                        x = args[w[1]]; c = x.count('\1')
                        before = sum(y.count('\1') for y in args[:w[1]])
                        if c == 1:
                            h = hs[before]
                            if h[0] == 'mem':
                                isd = h[2] == 'double'
                                if h[2] == 'cut' and len(w) > 2 and re.search('double|float', w[2]): flag('line', mk + shown, '"%s" cuts off the fraction of the value' % shown, i)
                                if isd != (h[3] in 'gfeGEF'): flag('line', mk + shown, '"%s" prints a%s with %%%s' % (shown, ' double' if isd else 'n integer', h[3]), i)
                                offs.setdefault(o, ('mem', h[1]))
                                if offs[o] != ('mem', h[1]): offs[o] = ('mem', h[1])
                            else: offs.setdefault(o, ('?',))
                        else:
                            lit = {'true': 1, 'false': 0}.get(x)
                            if lit is None: lit = enums(prog)[0].get(x.rsplit('::', 1)[-1])
                            if lit is None:
                                try: lit = float(x)
                                except ValueError: pass
                            offs[o] = ('const', lit) if lit is not None else ('?',)
            if len(es) > 1: offs = {o: w for o, w in offs.items()}
            # every value must be the current value of the member it is stored in
            for o, w in offs.items():
                nm = lay.get(o, (str(o),))[0]
                if w[0] == 'mem' and w[1] != o and not same_param(prog, cls, fnm, o, w[1], offs):
                    flag('line', mk + shown, '"%s" stores the value of %s in %s' % (shown, lay.get(w[1], (w[1],))[0], nm), i)
                elif w[0] == 'const' and o in val and w[1] != val[o]:
                    flag('line', mk + shown, '"%s" is written although %s is %s' % (shown, nm, val[o]), i)
            if var[0] and vn != var[0]: flag('line', mk + shown, '"%s" uses the variable %s, which is not the declared %s' % (shown, vn, var[0]), i)
            out.append((i, mk, offs))
        return out
    S = G.state(dflt, dflt)
    base = lines(S, dflt)
    dec = [x for x in base if x[1] == 'decl']; inc = [x for x in base if x[1] == 'inc']
    if not dec and not unknown[0]: flag('frame', 'declaration', 'no variable is declared', None)
    for i, mk, d in dec:
        if d[0] != cls: flag('frame', 'declaration', 'declares a %s instead of a %s' % (d[0], cls), i)
        else: r.ok('frame', what + ' declares its class')
        var[0] = d[1]
    for i, mk, d in inc:
        ps = [os.path.join(dp, d) for dp, dn_, fs in os.walk(os.path.join(REPO, 'src')) if d in fs]
        if not ps or not any(re.search(r'\bclass\s+(\w+\s+)*%s\b' % cls, open(p, errors='replace').read()) for p in ps): flag('frame', 'include', 'includes "%s", which does not declare %s' % (d, cls), i)
        else: r.ok('frame', what + ' includes ' + d)
    if not inc and not unknown[0]: flag('frame', 'include', 'the header is not included', None)
    rv = returned(G, S)
    if rv is None: r.undecided('frame', what + ': result not tracked')
    elif var[0] and rv != var[0]: flag('frame', 'result', 'returns "%s" but declares the variable %s' % (rv, var[0]), None)
    else: r.ok('frame', what + ' returns ' + rv)
    covered = {}
    def check(val, o):
        S = G.state(val, dflt)
        L = lines(S, val); hit = False
        for i, mk, offs in L:
            if mk not in ('3', '4') or not isinstance(offs, dict): continue
            differs = any(val.get(x) != dflt.get(x) for x in offs if x in dflt)
            shown = ','.join(lay.get(x, (str(x),))[0] for x in offs)
            if mk == '3' and not differs and all(x in dflt for x in offs): flag('marker', '3:' + shown, 'writes the code that sets %s although it has its default value' % shown, i)
            elif mk == '4' and differs: flag('marker', '4:' + shown, 'marks %s as default although it differs' % shown, i)
            else: r.ok('line', '%s sets %s' % (what, shown))
            if o is not None and mk == '3' and o in offs:
                av = avoidable(fn, S, i.blk)
                if not av: hit = True
                elif av == 'loop': unknown[0] = True
        return hit
    check(dflt, None)
    for o, nm in sorted(need.items()):
        member = lay.get(o, (str(o), ''))[0]
        if o not in dflt: r.undecided('recreated', '%s: default of %s unknown' % (what, member)); continue
        d = dflt[o]; ty = lay.get(o, ('', ''))[1]
        en = enums(prog)[1].get(ty.rsplit('::', 1)[-1].rsplit(' ', 1)[-1]) if ty else None
        vals = [x for x in en if x != d] if en else [1 - int(d)] if ty == 'bool' or isinstance(d, bool) else [d + 1, d - 1, 7919] if isinstance(d, int) else [d * 2 + 0.5, d / 2 - 0.01]
        ok = True
        for v in vals:
            x = dict(dflt); x[o] = v
            if not check(x, o): ok = False
        if ok: r.ok('recreated', '%s %s' % (what, member))
        elif unknown[0]: r.undecided('recreated', '%s %s' % (what, member))
        else: flag('recreated', member, 'a value of %s (%s) that differs from the default is not written' % (member, nm), None)

def same_param(prog, cls, name, o, src, offs):
    """a setter that stores its argument in several members: one of them is the printed one"""
    return src in offs

def avoidable(fn, S, b):
    """can a return be reached without block b? 'loop': only by leaving a loop whose iterations are not counted here"""
    if not _avoid(fn, S, b, set()): return False
    heads = {x for x in S.blk if any((p, x) in S.edge and dominates(fn, S, x, p) for p in S.blk if x in fn.succ[p])}
    loops = {h for h in heads if _reach(fn, S, h, b) and _reach(fn, S, b, h)}
    return 'loop' if loops and not _avoid(fn, S, b, loops) else True

def _reach(fn, S, a, b):
    seen = {a}; st = [a]
    while st:
        x = st.pop()
        for s in fn.succ[x]:
            if (x, s) in S.edge:
                if s == b: return True
                if s not in seen: seen.add(s); st.append(s)
    return False

def dominates(fn, S, d, b):
    seen = {0} - {d}; st = list(seen)
    while st:
        x = st.pop()
        if x == b: return False
        for s in fn.succ[x]:
            if (x, s) in S.edge and s != d and s not in seen: seen.add(s); st.append(s)
    return True

def _avoid(fn, S, b, block):
    seen = {0} if b != 0 else set(); st = list(seen)
    while st:
        x = st.pop()
        if fn.blocks[x][-1].op == 'ret': return True
        for s in fn.succ[x]:
            if (x, s) in S.edge and s != b and s not in block and s not in seen and not (fn.blocks[x][-1].op == 'invoke' and s == fn.succ[x][-1] and len(fn.succ[x]) > 1): seen.add(s); st.append(s)
    return False

def returned(G, S):
    """the returned std::string, if it is built from one constant"""
    out = set()
    for i in G.fn.all():
        if i.op in ('call', 'invoke') and i.blk in S.blk:
            q = G.fn.call(i)['q']
            if re.search(r'basic_string<.*::basic_string|::string::string|basic_string::(basic_string|assign|operator=)|std::.*string', q) and len(i.a) > 1 and any(o == ('arg', 0) for o, x in G.F.val(i.a[0])):
                r = G.resolve(S, i.a[1])
                out.add(r[1] if r and r[0] == 'str' else None)
    return out.pop() if len(out) == 1 else None
