import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'analysis'))
import runner, api, nullness
from core import *

def contracts():
    C = {}
    for l in open(os.path.join(os.path.dirname(nullness.__file__), 'optional.txt')):
        if l.strip() and l[0] != '#':
            m, p, s = l.rstrip('\n').split('|'); C[m] = (p, s.split(','))
    return C

def fn(R, tier):
    C = contracts()
    for cname, flags in runner.configs(tier, both=tier == 'thorough'):
        P = runner.program(flags)
        for f in api.roots(P):
            if f.m not in C: continue
            cfg = nullness.build(P, f)
            N = nullness.Null(P, cfg)
            R.count('functions'); R.count('accesses', sum(len(b.ins) for b in cfg.blocks))
            S = {x[0]: x for x in nullness.subjects(P, f, cfg)}
            for s in C[f.m][1]:
                if s not in S: continue
                nm, r, F, p = S[s]
                N.run(r, F, p); R.count('absences_assumed')
                what = 'parameter %s' % p.name if p is not None else 'optional array %s' % F if s.startswith('this') else 'optional array %s of argument %s' % (F, s[1:].split('-')[0])
                for i, b, e in N.derefs():
                    loc = i.loc if i is not None else b.tloc
                    R.add('uses an absent array', locstr(loc or f.loc), '%s: %s is reached although the %s may be NULL%s' % (f.pretty, show(e)[:60], what, ' (the check that precedes it fails)' if i is None else ''),
                          [f.pretty] + [x[0] for x in (i.stack if i is not None else ())], key='%s|%s' % (f.pretty, s))
            R.sample('%s works without %s' % (f.pretty, ', '.join(C[f.m][1])))
runner.main('S13', 'optional arrays may be absent', fn, 'other',
    'Conditional constant propagation of "this pointer is NULL" through each public function (callees inlined, SSA form, optional members tracked per object). '
    'An access through the pointer, or an assertion that can only fail, on a path that is possible under the assumption is reported. '
    'The arrays each operation does without are listed in analysis/optional.txt.',
    minimum={'functions': 40, 'absences_assumed': 150},
    assumptions=['other pointers passed in are valid', 'an allocation that succeeded is not NULL'])
