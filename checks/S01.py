import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'analysis'))
import runner, api, units
from core import locstr

def fn(R, tier):
    for cname, flags in runner.configs(tier):
        P = runner.program(flags)
        for f in api.roots(P):
            u = units.analyse(P, f)
            R.count('functions'); R.count('inlined_functions', len(u.cfg.inlined))
            R.count('element_accesses', u.accesses); R.count('equations', u.eqs); R.count('base_dispatches', u.ndispatch)
            for why, loc, ins in u.conf:
                st = [s[0] for s in ins.stack] if ins is not None else []
                R.add('index base', locstr(loc or f.loc), '%s: %s' % (st[-1] if st else f.pretty, why), [f.pretty] + st)
            if u.accesses > 40: R.sample('%s: %d accesses, %d equations consistent' % (f.pretty, u.accesses, u.eqs))
runner.main('S01', 'results do not depend on the index base', fn, 'other',
    'Dimension inference: every integer and pointer gets the amount by which it moves when the matrix uses 1-based instead of 0-based indices; '
    'each element access, comparison, assignment, merge, copy size and output of every public function (callees inlined) is a linear equation over these amounts. '
    'A contradictory equation is a construct that treats the two bases differently. Code specialised for one base must run under a test for that base.',
    minimum={'functions': 60, 'element_accesses': 20000, 'base_dispatches': 20},
    assumptions=['matrix arrays obey the CSR convention: rowptr, colidx, diagptr and extptr contents carry the base, perm arrays are 0-based'])
