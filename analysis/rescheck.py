import runner, resources, typestate as T
def main(pid, title, kinds, minacq):
    def fn(R, tier):
        for cname, flags in runner.configs(tier):
            P = runner.program(flags)
            res, st = resources.analyse(P, kinds=kinds)
            R.count('functions', st['functions']); R.count('acquisitions', len(res)); R.count('path_states', st['path_states'])
            for f, loc, kind, reps, names, r in res:
                if r not in ('ok', 'leak'): R.undecided += 1
                for what, a, b in reps:
                    R.add(what, a, '%s: what is acquired here: %s (%s)' % (f.pretty, what, b), names, key='%s|%s|%s' % (what, f.pretty, T.RELNAME.get(kind)))
                if len(R.samples) < 12: R.sample('%s %s %s: %s' % (f.pretty, kind, runner.locstr(loc), 'violated' if reps else 'released or handed over on every path'))
    runner.main(pid, title, fn, 'other',
        'Path-sensitive typestate (property simulation): each resource is followed from the call that acquires it along every path of the inlined function, '
        'together with the outcomes of the tests the path has passed; at the exit it must have been released, returned or stored in an object that outlives the call. '
        'Releasing it twice, with a function that does not match, or using it after its release is reported as well. Resources that leave a helper are followed in its callers.',
        minimum={'acquisitions': minacq},
        assumptions=['whether a pointer lies in the memory pool does not change during one operation', 'elements of an array of pointers that are released in a loop are released all', 'an exception or a failing assertion ends the path'])
