"""Typestate of all resources of the library, function by function. A resource that leaves the
function it is acquired in (returned, or through an out parameter) is followed in the callers."""
import time, os
import core, api, typestate as T
from core import locstr
from concurrent.futures import ProcessPoolExecutor

def graph(P):
    men = api.callees(P)
    g = {}
    for callee, users in men.items():
        for u in users: g.setdefault(u, set()).add(callee)
    return g

_P = None; TRACE = os.environ.get('TRACE')
def one(args):
    m, cons, kinds = args; t0 = time.time()
    f = _P.fns[m]
    cfg = core.lower(_P, f, inline=T.inline(_P))
    core.promote_outparams(cfg); core.ssa(cfg)
    t1 = time.time(); tr = T.Track(_P, cfg)
    out = {}; skip = []
    for ins in list(cfg.instrs()):
        if ins.op != 'call' or not (T.cname(ins) in T.ACQ or ins.callee in T.ACQ): continue
        kind = T.ACQ.get(T.cname(ins)) or T.ACQ.get(ins.callee)
        if kinds is not None and kind not in kinds: continue
        st = tuple((s[2], s[1]) for s in ins.stack)
        sub = (st[0][0], st[1:], tuple(ins.loc or ())) if st else None
        if sub is not None and cons is not None and not cons.get(sub, True):
            skip.append((st, tuple(ins.loc or ()))); continue
        reps = []
        def rep(kind, loc, facts, ins=ins):
            k = (kind, locstr(ins.loc), locstr(loc))
            if k not in reps: reps.append(k)
        r = tr.run(ins, rep)
        kind = T.ACQ.get(T.cname(ins)) or T.ACQ.get(ins.callee)
        out[(st, tuple(ins.loc or ()))] = (kind, set(tr.outcomes), reps, r, ['%s (called at %s)' % (s[0], locstr(s[1])) for s in ins.stack])
    if TRACE: print(f.pretty, len(out), round(time.time() - t0, 1), 'lower', round(t1 - t0, 1))
    return m, out, tr.npaths, skip

def analyse(P, kinds=None, jobs=8):
    """[(function, acquisition loc, kind of resource, reports, stack)], statistics"""
    global _P
    _P = P
    fns = [f for f in P.repo_fns() if f.d.get('body')]
    g = graph(P)
    byname = {f.m: f for f in fns}
    # functions from which an acquisition is reachable
    import json
    acq = set()
    def has(x):
        if isinstance(x, dict):
            if x.get('k') == 'fn' and x.get('name') in T.ACQ and (kinds is None or T.ACQ[x['name']] in kinds): return True
            if x.get('k') in ('new',) and (kinds is None or 'new' in kinds or 'new[]' in kinds): return True
            return any(has(y) for y in x.values() if isinstance(y, (dict, list)))
        if isinstance(x, list): return any(has(y) for y in x)
        return False
    for f in fns:
        if has(f.d['body']) or has(f.d.get('inits', [])): acq.add(f.m)
    reach = set(acq); ch = True
    while ch:
        ch = False
        for f in fns:
            if f.m not in reach and g.get(f.m, set()) & reach: reach.add(f.m); ch = True
    # bottom-up levels
    level = {}
    def lv(m, vis=()):
        if m in level: return level[m]
        if m in vis: return 0
        r = 1 + max([lv(c, vis + (m,)) for c in g.get(m, ()) if c in reach] or [-1])
        level[m] = r
        return r
    for m in reach: lv(m)
    cons = {}
    res = []; paths = 0; nacq = 0
    order = sorted(reach, key=lambda m: level[m])
    men = api.callees(P)
    roots = {f.m for f in api.roots(P)} | {f.m for f in fns if not men.get(f.m, set()) - {f.m}}
    i = 0
    while i < len(order):
        j = i
        while j < len(order) and level[order[j]] == level[order[i]]: j += 1
        batch = [(m, dict(cons), kinds) for m in order[i:j]]
        with ProcessPoolExecutor(jobs) as ex:
            for m, out, np, skip in ex.map(one, batch):
                for st, loc in skip: cons[(m, st, loc)] = False
                paths += np
                for (st, loc), (kind, outc, reps, r, names) in out.items():
                    nacq += 1
                    defer = bool(reps) and m not in roots
                    cons[(m, st, loc)] = 'escape' in outc or defer
                    res.append((byname[m], loc, kind, [] if defer else reps, names, r))
        i = j
    return res, {'functions': len(reach), 'acquisitions': nacq, 'path_states': paths}

if __name__ == '__main__':
    import sys, time
    t = time.time()
    P = core.Program(core.DEBUG if 'debug' in sys.argv else None)
    res, st = analyse(P)
    seen = set()
    for f, loc, kind, reps, names, r in res:
        if r not in ('ok', 'leak'): print('   ', r, f.pretty, locstr(loc))
        for k in reps:
            if k in seen: continue
            seen.add(k); print('%-30s %s: %s -> %s %s' % (f.pretty, k[1], k[0], k[2], names))
    print(st, time.time() - t)
