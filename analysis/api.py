"""Public entry points of the library: functions declared in a header, externally visible."""
import os
import core
BASE = os.path.join(core.VERIF, 'analysis', 'api_baseline.txt')

def callees(prog):
    """mangled name -> set of mangled names of library functions that mention it"""
    if getattr(prog, '_mention', None) is None:
        r = {}
        def w(x, m):
            if isinstance(x, dict):
                if x.get('k') in ('fn', 'memfn') and 'm' in x: r.setdefault(x['m'], set()).add(m)
                if x.get('k') == 'ctor' and 'm' in x: r.setdefault(x['m'], set()).add(m)
                for y in x.values():
                    if isinstance(y, (dict, list)): w(y, m)
            elif isinstance(x, list):
                for y in x: w(y, m)
        for f in prog.repo_fns(): w(f.d['body'], f.m); w(f.d.get('inits', []), f.m)
        prog._mention = r
    return prog._mention

def header_fns(prog):
    return [f for f in prog.repo_fns() if f.d['linkage'] == 'ext' and not f.d.get('targs') and f.d['declfile'].endswith(('.hpp', '.h')) ]

def roots(prog):
    """API functions. A function that is new since the pinned commit and is used by the library
    itself is a helper: it is analysed inlined into its callers, not on its own."""
    base = set(l.strip() for l in open(BASE)) if os.path.exists(BASE) else None
    men = callees(prog)
    out = []
    for f in header_fns(prog):
        if f.d.get('access') == 'private' and base is None: continue
        if base is not None and f.m not in base and men.get(f.m, set()) - {f.m}: continue
        out.append(f)
    return out
if __name__ == '__main__':
    P = core.Program()
    with open(BASE, 'w') as o:
        for m in sorted(f.m for f in header_fns(P)): o.write(m + '\n')
