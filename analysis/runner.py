"""Common driver of the checks: tiers, evidence, known findings, exit codes.

Exit codes: 0 the property holds on everything analysed, 1 violation (a line
"VIOLATION property=<id> replay=<path>" is printed), 2 the check could not decide
(program does not parse, an anchor of the analysis vanished)."""
import json, os, re, sys, time, traceback
import core
from core import AnalysisBroken, Program, RELEASE, DEBUG, locstr

EVID = os.path.join(core.VERIF, 'evidence')
KNOWN = os.path.join(core.VERIF, 'known_findings.txt')

class Violation:
    def __init__(self, rule, where, what, path=(), key=None):
        self.rule = rule                # which rule is broken
        self.where = where              # file:line
        self.what = what                # the construct
        self.path = list(path)          # call path / steps
        self.key = key or '%s|%s' % (rule, re.sub(r'\.\d+|#v\d+', '', what))
    def text(self):
        s = '%s: [%s] %s' % (self.where, self.rule, self.what)
        for p in self.path: s += '\n      via %s' % (p,)
        return s

class Result:
    def __init__(self):
        self.viol = []; self.cov = {}; self.samples = []; self.assumptions = []; self.undecided = 0
    def add(self, rule, where, what, path=(), key=None):
        v = Violation(rule, where if isinstance(where, str) else locstr(where), what, path, key)
        for w in self.viol:
            if w.key == v.key and w.where == v.where: return
        self.viol.append(v)
    def count(self, k, n=1): self.cov[k] = self.cov.get(k, 0) + n
    def sample(self, s, limit=12):
        if len(self.samples) < limit: self.samples.append(s)

def load_known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            m = re.match(r'known: property=(\S+) key=(.*?) :: (.*)$', l)
            if m and m.group(1) == pid: out[m.group(2)] = m.group(3)
    return out

_progs = {}
def program(flags):
    k = tuple(flags)
    if k not in _progs: _progs[k] = Program(flags)
    return _progs[k]

def main(pid, title, fn, level, explanation, minimum=None, assumptions=()):
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in sys.argv[1:]:
        if a in ('quick', 'thorough'): tier = a
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    try:
        R = Result()
        fn(R, tier)
        for k, v in (minimum or {}).items():
            if R.cov.get(k, 0) < v:
                raise AnalysisBroken('only %d %s analysed (expected at least %d): the analysis lost its anchors' % (R.cov.get(k, 0), k, v))
    except AnalysisBroken as e:
        print('CHECK-ERROR property=%s %s' % (pid, e)); sys.exit(2)
    except Exception:
        traceback.print_exc(); print('CHECK-ERROR property=%s internal error' % pid); sys.exit(2)
    known = load_known(pid)
    new = []; kn = []
    for v in R.viol: (kn if v.key in known else new).append(v)
    cov = dict(R.cov)
    if level == 'other': cov['explanation'] = explanation
    elif level == 'proof': pass
    if R.samples: cov['samples'] = R.samples
    cov['rule'] = explanation
    if R.undecided: cov['undecided'] = R.undecided
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level, 'coverage': cov,
          'wall_s': round(time.time() - t0, 2), 'assumptions': list(assumptions) + R.assumptions, 'violations': len(new)}
    with open(os.path.join(EVID, pid + '.json'), 'w') as f: json.dump(ev, f, indent=1); f.write('\n')
    seen = set()
    for v in kn:
        if v.key in seen: continue
        seen.add(v.key)
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, known[v.key], v.where))
    print('%s %s: %s' % (pid, title, ', '.join('%s=%s' % (k, v) for k, v in R.cov.items() if not isinstance(v, (dict, list, str)))))
    if new:
        rp = os.path.join(EVID, pid + '.replay.txt')
        with open(rp, 'w') as f:
            f.write('property %s: %s\n' % (pid, title))
            for v in new: f.write(v.text() + '\n      key: ' + v.key + '\n')
        for v in new[:20]: print('  ' + v.text())
        print('VIOLATION property=%s replay=%s' % (pid, rp)); sys.exit(1)
    rp = os.path.join(EVID, pid + '.replay.txt')
    if os.path.exists(rp): os.unlink(rp)
    print('property %s held on everything analysed (%s, %.1f s)' % (pid, tier, time.time() - t0)); sys.exit(0)

def configs(tier, both=True):
    return (('release', RELEASE), ('debug', DEBUG)) if both else (('release', RELEASE),)
