"""Result collection shared by the checks."""
import os, json, time
from build import VERIF, REPO

class Broken(Exception):
    """the analysis itself could not reach a verdict (anchor gone, nothing matched, limits)"""

def rel(loc):
    return loc.replace(REPO + '/', '') if loc else '?'

class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop; self.tier = tier; self.t0 = time.time()
        self.viol = []; self.known = []; self.obl = {}; self.cov = {}; self.samples = []; self.assumptions = []
        self.explanation = ''
        self.known_list = [k for k in load_known() if k['property'] == prop]
        self._seen = set()
    def ok(self, rule, what=None, n=1):
        """an obligation decided and discharged"""
        r = self.obl.setdefault(rule, [0, 0]); r[0] += n; r[1] += n
        if what is not None and sum(1 for s in self.samples if s.startswith(rule)) < 3: self.samples.append('%s: %s' % (rule, what))
    def bad(self, rule, where, what, trace=()):
        """an obligation decided and violated; where identifies the construct"""
        r = self.obl.setdefault(rule, [0, 0]); r[0] += 1
        where = rel(where)
        if (rule, where, what) in self._seen: return
        self._seen.add((rule, where, what))
        for k in self.known_list:
            if k['rule'] == rule and k['where'] in where + ' ' + what:
                self.known.append((k, rule, where, what)); return
        self.viol.append((rule, where, what, [rel(t) for t in trace]))
    def decide(self, rule, cond, where, what, trace=()):
        if cond: self.ok(rule, '%s: %s' % (rel(where), what))
        else: self.bad(rule, where, what, trace)
        return cond
    def need(self, cond, msg):
        if not cond: raise Broken(msg)
    def atleast(self, rule, n):
        got = self.obl.get(rule, [0, 0])[0]
        if got < n: raise Broken('rule %s matched %d instances, expected at least %d' % (rule, got, n))
    def finish(self):
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        n = sum(x[0] for x in self.obl.values()); d = sum(x[1] for x in self.obl.values())
        cov = {'explanation': self.explanation or 'static analysis', 'obligations': n, 'discharged': d,
               'rules': {k: {'instances': v[0], 'discharged': v[1]} for k, v in sorted(self.obl.items())},
               'samples': self.samples[:40]}
        cov.update(self.cov)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
              'coverage': cov, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol), 'assumptions': self.assumptions}
        with open('%s/evidence/%s.json' % (VERIF, self.prop), 'w') as f: json.dump(ev, f, indent=1)
        seen = set()
        for k, rule, where, what in self.known:
            if id(k) in seen: continue
            seen.add(id(k)); print('KNOWN-FINDING: property=%s %s [%s] %s' % (self.prop, rule, where, what))
        if self.viol:
            rp = '%s/evidence/%s.report.txt' % (VERIF, self.prop)
            with open(rp, 'w') as f:
                for rule, where, what, tr in self.viol:
                    t = 'rule %s\n  at   %s\n  what %s\n' % (rule, where, what) + ''.join('  via  %s\n' % x for x in tr)
                    f.write(t + '\n')
            for rule, where, what, tr in self.viol[:5]: print('  [%s] %s: %s' % (rule, where, what[:400])); [print('      via', x[:200]) for x in tr[:3]]
            if len(self.viol) > 5: print('  ... and %d more, see %s' % (len(self.viol) - 5, rp))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        print('ok property=%s: %d obligations discharged in %.1fs' % (self.prop, d, time.time() - self.t0))
        return 0

def load_known():
    """lines "known: {json with property, rule, where, what}"; "fixed:" lines are records only"""
    p = VERIF + '/known_findings.txt'; r = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known:'): r.append(json.loads(l[6:]))
    return r
