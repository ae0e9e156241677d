import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'analysis'))
import runner, api
from core import *
from lifecycle import *

# operations documented to work on an empty object: they do not release what it holds
EMPTY = {'SpMP::CSR::alloc': 'works on an empty matrix; callers are judged with it inlined'}
def chosen(f): return 'loadimba' not in f.file and 'anonymous' not in f.name      # loadimba is not part of the build

def fn(R, tier):
    for conf, flags in runner.configs(tier, tier != 'quick'):
        P = runner.program(flags)
        fs = {f.m: f for f in api.roots(P) if f.d.get('access') in (None, '', 'public') and chosen(f)}
        for f in P.repo_fns():
            if (f.d.get('isctor') or f.d.get('isdtor')) and not f.d.get('implicit') and P.records.get(f.rec, {}).get('fields') and chosen(f): fs[f.m] = f
        cf = {m: (lambda c: (c, Prov(P, c)))(lowered(P, f)) for m, f in fs.items()}
        own = owned(P, cf.values())
        R.count('classes', len(own.m)); R.count('members', sum(len(x) for x in own.m.values()))
        for c, x in own.m.items(): R.sample('%s owns %s' % (c, ', '.join(sorted(x))))
        for m, f in fs.items():
            cfg, pv = cf[m]; R.count('functions')
            def rep(ins, rule, what, f=f):
                R.add(rule, locstr((ins.loc if ins is not None else None) or f.loc), '%s: %s' % (f.pretty, what), [s[0] for s in ins.stack] if ins is not None else [])
            r = Run(P, cfg, pv, own, None, rep, ctor=f.rec if f.d.get('isctor') else None, dtor=f.rec if f.d.get('isdtor') else None, empty=f.name in EMPTY)
            r.run(); R.count('events', r.n); R.count('objects', len(r.objs))
            if f.d.get('isctor') and f.rec in P.records:
                R.count('constructors')
                for x in sorted(initialised(cfg, P, f.rec)): R.add('uninitialised member', locstr(f.loc), '%s: %s is not initialised on every path' % (f.pretty, x), [])
        rel = released(P, cf, own); R.count('classes_releasing', len(rel))
        for c, what, l in special(P, own, rel): R.add('copies share memory', locstr(l), '%s: %s' % (c, what))
        for m, f in fs.items():
            cfg, pv = cf[m]
            if (f.d.get('copyctor') or f.name.endswith('operator=')) and f.rec in rel:
                R.count('copy_operations')
                for rule, ins, what in copies(P, cfg, pv, own, rel): R.add(rule, locstr((ins.loc if ins is not None else None) or f.loc), '%s: %s' % (f.pretty, what))
if __name__ == '__main__':
    runner.main('S12', 'objects own their memory', fn, 'other',
        'Typestate of the members that hold memory, per object and together with the flags that say who owns them (disjunctive vectors over all paths of the inlined operation): '
        'reports members that are lost, released twice, released although somebody else owns them, released by the wrong function, left dangling, left uninitialised by a constructor, or not released by the destructor; '
        'classes that release memory must not be copied member by member, and their copy operations must copy every member completely.',
        minimum={'functions': 120, 'classes': 10, 'members': 50, 'events': 9000, 'objects': 150, 'constructors': 15, 'classes_releasing': 8},
        assumptions=['a matrix lies in the memory pool with all its arrays or with none', 'whether an object lies in the pool does not change during one operation', 'members reached through arrays of objects are not followed'])
