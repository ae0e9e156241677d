import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'analysis'))
import runner, par
from core import locstr

def loc(a): return locstr(a.ins.loc) if a.ins is not None else locstr(getattr(a.block, 'tloc', None))
def arr(an, root):
    n = an.rootname(root)
    return n or str(root[1] if len(root) > 1 else root[0])

def fn(R, tier):
    for cname, flags in runner.configs(tier):
        P = runner.program(flags)
        for f, p, info, prod in par.regions(P):
            an = info.an
            if prod is not None and prod.problems: prod = None
            R.count('parallel_regions'); R.count('blocks', len(an.blocks)); R.count('shared_accesses', len(an.acc))
            R.count('writes', sum(1 for a in an.acc if a.kind == 'w')); R.count('atomic_accesses', sum(1 for a in an.acc if a.atomic))
            if prod is not None: R.count('role_products')
            for w, b in an.conflicts(prod):
                st = [s[0] for s in (w.ins.stack if w.ins is not None else ())]
                R.add('data race', loc(w), 'in %s: this write of %s%s may touch the element that another thread %s at %s' % (
                    f.pretty, arr(an, w.root), ''.join('[%s]' % par.fshow(x)[:60] for x in w.idx), 'writes' if b.kind == 'w' else 'reads', loc(b)), [f.pretty] + st,
                    key='race|%s|%s|%s' % (f.pretty, arr(an, w.root), b.kind))
            R.sample('%s %s: %d shared accesses, %d barriers' % (f.pretty, locstr(info.R.loc), len(an.acc), len(an.bars)))
            for k, n in p.reviewed.items(): R.cov.setdefault('separated_by_review', {})[k] = n
runner.main('S09', 'threads of a parallel region do not race', fn, 'other',
    'For every parallel region (callees inlined): each shared access gets the set of barriers after which it can run and an address in terms of the thread number, own loop iterations, own partitions and segments of offset tables. '
    'Two accesses of the same array that can run between the same barriers in different threads, one of them a write, must be separated by a single/master/critical construct, be atomic, or have addresses that differ between threads. '
    'Regions in which thread 0 follows its own protocol are stepped through as a product of two roles.',
    minimum={'parallel_regions': 120, 'shared_accesses': 3000},
    assumptions=['offset tables filled with a prefix sum are ascending', 'distinct pointer parameters of one function do not overlap', 'rowptr is ascending and a permutation is injective'])
