"""Collecting obligations, violations, known findings and evidence for one property."""
import json, os, re, sys, time
from model import VERIF, AnalysisBroken

KNOWN = os.path.join(VERIF, 'known-findings.txt')

def known(prop):
    """keys of recorded (not repaired) findings of this property"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop: out[m.group(2)] = m.group(3)
    return out

class Report:
    def __init__(self, prop, tier):
        self.prop = prop; self.tier = tier; self.t0 = time.time()
        self.obl = {}        # rule -> [discharged, undecided, violated]
        self.viol = []       # (key, text)
        self.und = []
        self.notes = []; self.samples = {}
    def ok(self, rule, what=None, n=1):
        self.obl.setdefault(rule, [0, 0, 0])[0] += n
        if what and len(self.samples.setdefault(rule, [])) < 6: self.samples[rule].append(what)
    def undecided(self, rule, what):
        self.obl.setdefault(rule, [0, 0, 0])[1] += 1
        self.und.append('%s: %s' % (rule, what))
    def bad(self, rule, key, text):
        """key: stable identification of the construct (no line numbers)"""
        self.obl.setdefault(rule, [0, 0, 0])[2] += 1
        k = re.sub(r'\s+', '_', rule + ':' + key)
        if k not in [x[0] for x in self.viol]: self.viol.append((k, '[%s] %s' % (rule, text)))
    def need(self, rule, n):
        """the rule must have found at least n instances, otherwise the analysis lost its anchors"""
        have = sum(self.obl.get(rule, [0, 0, 0]))
        if have < n: raise AnalysisBroken('rule %s of %s matched %d instances, at least %d expected' % (rule, self.prop, have, n))
    def finish(self, prog, meta):
        kn = known(self.prop)
        new = [(k, t) for k, t in self.viol if k not in kn]
        old = [(k, t) for k, t in self.viol if k in kn]
        for k, t in old: print('KNOWN-FINDING: property=%s %s (%s)' % (self.prop, kn[k], t))
        ev = os.path.join(VERIF, 'evidence'); os.makedirs(ev, exist_ok=True)
        d = sum(v[0] for v in self.obl.values()); u = sum(v[1] for v in self.obl.values())
        expl = '%s Analysed %d translation units, %d functions, %d classes (skipped units: %s). ' % (
            meta['rule'], len(prog.units) - len(prog.skipped), len(prog.fns), len([c for c in prog.classes if prog.classes[c]['repo']]), ', '.join(prog.skipped) or 'none')
        cov = {'explanation': expl, 'obligations': sum(sum(v) for v in self.obl.values()), 'discharged': d, 'undecided': u,
               'per_rule': {r: {'discharged': v[0], 'undecided': v[1], 'violated': v[2]} for r, v in sorted(self.obl.items())},
               'undecided_sites': self.und[:60], 'samples': ['%s: %s' % (k, x) for k, v in sorted(self.samples.items()) for x in v], 'notes': self.notes[:40],
               'known_findings': [k for k, _ in old]}
        out = {'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': meta.get('level', 'other'),
               'coverage': cov, 'wall_s': round(time.time() - self.t0, 2), 'assumptions': meta.get('assumptions', [])}
        out['violations'] = len(new)
        cov['violated_sites'] = [t for _, t in new]
        json.dump(out, open(os.path.join(ev, self.prop + '.json'), 'w'), indent=1)
        print('%s: %d obligations, %d discharged, %d undecided, %d violated (%d known)  %.1fs' % (
            self.prop, cov['obligations'], d, u, len(self.viol), len(old), time.time() - self.t0))
        for r, v in sorted(self.obl.items()): print('   %-22s discharged %d undecided %d violated %d' % (r, *v))
        if self.tier != 'quick' or os.environ.get('CGL_VERBOSE'):
            for x in self.und: print('   undecided', x)
        for j, (k, t) in enumerate(new):
            rp = os.path.join(ev, '%s-%d.txt' % (self.prop, j))
            open(rp, 'w').write('property %s\nkey %s\n%s\nreproduce: /verif/check %s\n' % (self.prop, k, t, self.prop))
            print('  ' + t); print('  key ' + k)
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
        return 1 if new else 0
