import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'analysis'))
import runner, shares, nullness
from core import *

def fn(R, tier):
    seen = {}
    for cname, flags in runner.configs(tier, both=tier == 'thorough'):
        P = runner.program(flags)
        for f in shares.reach(P):
            cfg = nullness.build(P, f)
            R.count('functions')
            for p, v, x in shares.examine(cfg):
                ins = next((i for b in [p.C.head] + list(p.C.body) for i in b.ins if i.loc), None)
                loc = locstr(getattr(p.C, 'loc', None) or p.C.head.tloc or (ins.loc if ins else f.loc))
                R.count('parts_examined')
                old = seen.get(loc); seen[loc] = v if old in (None, 'ok') else old
                if v == 'undecided' and old is None: R.undecided += 1; R.sample('%s: not decided: %s' % (loc, x))
                if v == 'alarm':
                    how, n, ivs = x
                    R.add('parts of the threads', loc, 'the parts [%s, %s) that the threads work on %s, e.g. with %d threads: %s' % (
                        shares.text(p.lo, p.names)[:200], shares.text(p.hi, p.names)[:200], how, n, ', '.join('[%d, %d)' % i for i in ivs)),
                        [f.pretty] + [s[0] for s in (ins.stack if ins is not None else ())], key='%s|%s' % (f.pretty, loc.split(':')[0]))
                elif v == 'ok' and old is None: R.sample('%s: [%s, %s)' % (loc, shares.text(p.lo, p.names)[:80], shares.text(p.hi, p.names)[:80]))
    R.count('places', len(seen))
    R.count('places_decided', sum(v != 'undecided' for v in seen.values()))
runner.main('S14', 'the parts of a range that threads take make up the range', fn, 'other',
    'The bounds of every loop, memcpy and memset whose range depends on the number of the thread are turned into terms over the thread number and the number of threads '
    '(helpers inlined, SSA values followed, joins turned into choices, std::min/max/lower_bound/upper_bound understood). The terms of the threads 0..n-1 must be adjacent, without overlap, '
    'and together be what a single thread would take. Terms are compared by normalisation and by evaluating them for several team sizes with values for their atoms.',
    minimum={'parts_examined': 60, 'places_decided': 40},
    assumptions=['all threads of the team reach the loop', 'the tables that are searched are sorted', 'the team has as many threads as omp_get_max_threads() says'])
