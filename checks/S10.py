import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'analysis'))
import runner, par
from core import locstr

def name(x): return 'the end of the region' if x in ('exit', None) else locstr(x.loc)

def fn(R, tier):
    for cname, flags in runner.configs(tier):
        P = runner.program(flags)
        for f, p, info, prod in par.regions(P):
            an = info.an
            R.count('parallel_regions'); R.count('barriers', len(an.bars)); R.count('divergent_branches', len(an.divbr))
            if prod is not None:
                R.count('role_products'); R.count('product_states', prod.states)
                for what, z, o in prod.problems:
                    R.add('barrier convergence', locstr(z.loc) if z not in ('exit', None) else locstr(info.R.loc), 'in %s: %s: one thread is at %s while another is at %s' % (f.pretty, what, name(z), name(o)), [f.pretty],
                          key='meet|%s|%s' % (f.pretty, what))
                continue
            for i, kind, why, d in an.badbars:
                R.add('barrier convergence', locstr(i.loc), 'in %s: a barrier %s%s' % (f.pretty, why, ' (%s)' % locstr(d.tloc) if d is not None and getattr(d, 'tloc', None) else ''), [f.pretty] + [s[0] for s in i.stack],
                      key='barrier|%s|%s' % (f.pretty, why))
            R.sample('%s %s: %d barriers, %d branches on which threads can differ' % (f.pretty, locstr(info.R.loc), len(an.bars), len(an.divbr)))
runner.main('S10', 'all threads of a team reach the same barriers', fn, 'other',
    'For every parallel region (callees inlined): a divergence analysis finds the conditions on which threads of the team can disagree (thread number, own loop iterations, own data, shared data that can change in between); '
    'no barrier, explicit, implied by a worksharing construct or of the synk library, may be control dependent on such a condition or lie inside a worksharing, single, master or critical construct. '
    'Where thread 0 follows its own protocol a product of both roles must meet at every barrier.',
    minimum={'parallel_regions': 120, 'barriers': 100},
    assumptions=['the team has as many threads as the synk barrier was created for'])
