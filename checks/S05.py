import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'analysis'))
import runner, api, effects
from core import locstr

def fn(R, tier):
    C = effects.contracts()
    for cname, flags in runner.configs(tier):
        P = runner.program(flags)
        for f in api.roots(P):
            cfg, W, n = effects.footprint(P, f)
            R.count('functions'); R.count('inlined_functions', len(cfg.inlined)); R.count('writes', n); R.count('regions_written', len(W))
            const = effects.const_params(f)
            R.count('read_only_arguments', len(const)); R.count('contracts', f.m in C)
            for g, (ins, w, r) in sorted(W.items()):
                root = g.split('-')[0].split('.')[0].split('[')[0]
                if root in const: why = 'through an argument declared read-only'
                elif root == 'this' and (f.d.get('isctor') or f.d.get('isdtor')): continue   # the object is being made or unmade
                elif f.m in C and g not in C[f.m]: why = 'which is not an output of the operation'
                else: continue
                R.add('modifies input', locstr(ins.loc or f.loc), '%s writes %s (%s) %s' % (f.pretty, effects.rshow(r), w, why), [f.pretty] + [s[0] for s in ins.stack], key='%s|%s' % (f.pretty, g))
            if W and len(W) < 6: R.sample('%s writes only %s' % (f.pretty, ', '.join(sorted(W))))
runner.main('S05', 'operations change only their outputs', fn, 'other',
    'Effect analysis: the provenance of every store, copy, sort, read and external call of each public function (callees inlined) is traced to parameters, fields, globals or own memory. '
    'A write reaching memory of an argument declared const (through any number of its pointers), or memory outside the write footprint of the operation (analysis/footprint.txt), is reported.',
    minimum={'functions': 200, 'writes': 15000, 'read_only_arguments': 80, 'contracts': 200},
    assumptions=['distinct pointer arguments do not overlap', 'external functions write only what their declarations allow'])
