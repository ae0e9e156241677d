import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'analysis'))
import runner, room, shares, api
from core import *

def fn(R, tier):
    seen = {}
    def note(loc, what, v):
        k = (loc, what); old = seen.get(k); seen[k] = v if old in (None, 'undecided') or v == 'alarm' else old
    for cname, flags in runner.configs(tier, both=tier == 'thorough'):
        P = runner.program(flags)
        for f in api.roots(P):
            cfg = lower(P, f, inline=lambda g, d: not g.file.startswith('/') and g.rec != 'SpMP::MemoryPool'); ssa(cfg)
            R.count('functions')
            Rm = room.Room(cfg)
            def rep(rule, loc, i, z, off, x):
                n, T_, i0, l, size = x
                R.add(rule, loc, '%s: access to %s of an array with room for %s, e.g. with %d threads (thread %d): %s, room for %d' % (
                    f.pretty, room.text(off, Rm.t.names)[:160], room.text(z, Rm.t.names)[:160], n, T_, 'index %d' % i0 if l == 1 else '%d elements from %d' % (l, i0), size),
                    [f.pretty] + [s[0] for s in (i.stack if i is not None else ())], key='%s|%s|%s' % (f.pretty, rule, loc.split(':')[0]))
            for b, n, x, i, root, z, off, v, t in Rm.examine():
                loc = locstr((i.loc if i is not None else b.tloc) or f.loc)
                R.count('accesses_examined'); note(loc, show(x).split('.')[0] if x is not None else 'block', v)
                if v == 'alarm': rep('room', loc, i, z, off, t)
            for b, n, i, z, st, v, t in Rm.slices():
                loc = locstr(i.loc or f.loc)
                R.count('slices_examined'); note(loc, 'slice', v)
                if v == 'alarm':
                    n_, T_, e, l, size = t
                    R.add('room for each thread', loc, '%s: each thread gets a part of %s elements of an array with room for %s, e.g. with %d threads: %d needed, room for %d' % (
                        f.pretty, room.text(st, Rm.t.names)[:160], room.text(z, Rm.t.names)[:160], n_, e, size), [f.pretty] + [s[0] for s in i.stack], key='%s|slice|%s' % (f.pretty, loc.split(':')[0]))
            for b, n, i, m, z, need, v, t in Rm.matrices():
                loc = locstr(i.loc or f.loc)
                R.count('arrays_given_to_matrices'); note(loc, m, v)
                if v == 'alarm':
                    R.add('room in the arrays of a matrix', loc, '%s: %s gets room for %s, needed is room for %s, e.g. %d and %d' % (
                        f.pretty, m, room.text(z, Rm.t.names)[:160], room.text(need, Rm.t.names)[:160], t[4], t[3]), [f.pretty] + [s[0] for s in i.stack], key='%s|%s|%s' % (f.pretty, m, loc.split(':')[0]))
    R.count('places', len(seen))
    R.count('places_decided', sum(v != 'undecided' for v in seen.values()))
    R.undecided += sum(v == 'undecided' for v in seen.values())
    for (loc, what), v in list(seen.items())[:400:8]: R.sample('%s %s: %s' % (loc, what, v))
runner.main('S17', 'arrays have room for what is stored in and read from them', fn, 'other',
    'Every array whose size is known - allocated in the operation (new[], malloc, pool), of variable or constant length, or a per-row array of a matrix - gets its size as a term, '
    'and every access that leads to it (through copies, offsets and members, callees inlined) gets its index as a term in which counters of loops run through their ranges and the '
    'thread number through the team. Index and size are compared by evaluating the terms for several team sizes and values of their atoms; only accesses whose index is made of what the size is '
    'made of are judged. Pointers to a part for each thread must leave room for the part of the last one.',
    minimum={'accesses_examined': 400, 'places_decided': 300},
    assumptions=['the arrays of a matrix passed in have room for its m rows', 'offset tables ascend', 'no more threads take part than omp_get_max_threads() says', 'indices read from data (colidx, permutations, queues) are not judged'])
