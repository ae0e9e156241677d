import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'analysis'))
import runner, api, effects, loops, par
from core import *
from typestate import cname

PRINT = {'printf', 'fprintf', 'puts', 'putchar', 'fputs', 'fputc', 'fflush', 'perror'}
NORET = {'__assert_fail', 'abort', 'exit', '_exit', '__assert'}

def text(e):
    """expression with variables by name"""
    if e is None: return ''
    if not isinstance(e, E): return str(e)
    if e.k == 'var': return e.a[0].name + '@' + (locstr(e.a[0].loc) if e.a[0].loc else '')
    return '%s(%s)' % (e.k, ','.join(text(x) if isinstance(x, E) else x.name if isinstance(x, Var) else str(x) for x in e.a))
def ikey(ins):
    return (ins.op, tuple(ins.loc or ()), tuple((s[1] or ()) for s in ins.stack))
def itext(ins):
    return (text(ins.lv), text(ins.e), cname(ins) if ins.op == 'call' else '', text(ins.this), tuple(text(a) for a in ins.args or ()))
def build(P, f):
    return lower(P, f, inline=lambda g, d: not g.file.startswith('/'))

def alive(cfg):
    """blocks that can run, given flags of local objects that only ever hold one constant"""
    val = {}
    for i in cfg.instrs():
        if i.op == 'set' and i.lv.k == 'fld':
            r = simple(i.lv)
            if r is not None:
                e = strip_casts(i.e)
                val.setdefault(r, set()).add(e.a[0] if e.k == 'int' else None)
        elif i.op == 'call':
            for x in list(i.args or ()) + ([i.this] if i.this is not None else []) + ([i.dst] if i.dst is not None else []):
                for y in x.walk():
                    if y.k == 'addr' or y is i.dst:
                        z = y.a[0] if y.k == 'addr' else y
                        if z.k == 'var': val.setdefault((z.a[0], None), set())
    seen = set(); st = [cfg.entry]
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b); t = b.term
        if t and t[0] == 'br':
            c = strip_casts(t[1]); neg = False
            while c.k == 'un' and c.a[0] == '!': neg = not neg; c = strip_casts(c.a[1])
            r = simple(c.a[0]) if c.k == 'ld' else None
            if r is not None and r[0].kind == 'local' and (r[0], None) not in val and len(val.get(r, ())) == 1 and None not in val[r]:
                v = bool(next(iter(val[r]))) != neg
                st.append(t[2] if v else t[3]); continue
        st += b.succs
    return seen
def nullfrees(cfg):
    """releases of members of local objects that were set to NULL before"""
    fields = {r for i in cfg.instrs() if i.op == 'set' and i.lv.k == 'fld' for r in [simple(i.lv)] if r is not None}
    if not fields: return set()
    def step(st, i):
        if i.op == 'set' and i.lv.k == 'fld':
            r = simple(i.lv)
            if r is not None:
                e = strip_casts(i.e); st = st | {r} if e.k == 'null' or e.k == 'int' and e.a[0] == 0 else st - {r}
        elif i.op == 'call':
            for x in list(i.args or ()) + ([i.this] if i.this is not None else []):
                for y in x.walk():
                    if y.k == 'addr' and y.a[0].k == 'var' and not constref(y): st = frozenset(r for r in st if r[0] is not y.a[0].a[0])
        return st
    IN = {cfg.entry: frozenset()}; work = [cfg.entry]; OUT = {}
    while work:
        b = work.pop(); st = IN[b]
        for i in b.ins: st = step(st, i)
        for s in b.succs:
            n = st if s not in IN else IN[s] & st
            if s not in IN or n != IN[s]: IN[s] = n; work.append(s)
    out = set()
    for b, st in IN.items():
        for i in b.ins:
            if i.op == 'call' and cname(i) in ('free', '_mm_free'):
                a = strip_casts(i.args[0])
                if a.k == 'ld' and simple(a.a[0]) in st: out.add(i)
            st = step(st, i)
    return out
def simple(lv):
    """(local object, field path)"""
    p = []
    while lv.k == 'fld':
        p.append(lv.a[2]); lv = lv.a[0]
        if lv.k == 'at' and lv.a[1].k == 'int' and lv.a[1].a[0] == 0 and lv.a[0].k == 'addr': lv = lv.a[0].a[0]
    return (lv.a[0], tuple(p)) if lv.k == 'var' and p else None

def compare(R, P, f, Q, g, name, other):
    """code of f that exists in configuration P (name) only has no effect on the rest"""
    cfg, ref = build(P, f), build(Q, g)
    cfg.reachable(); 
    rk = {}
    for i in ref.instrs(): rk.setdefault(ikey(i), set()).add(itext(i))
    gone = {ikey(i) for b in ref.pruned for i in b.ins}        # code behind a failing assertion
    live = alive(cfg)
    rb = set()
    for b in ref.blocks:
        if b.term and b.term[0] == 'br': rb.add((tuple(b.tloc or ()), tuple((s[1] or ()) for s in b.tstack)))
    only = set(); common = set(); texts = {}
    for i in cfg.instrs():
        k = ikey(i)
        if i.block not in live: continue
        if k not in rk:
            if k not in gone: only.add(i)
        else: common.add(i); texts[i] = itext(i)
    R.count('instructions', len(only) + len(common)); R.count('config_only', len(only))
    onlybr = {b for b in cfg.blocks if b.term and b.term[0] == 'br' and (tuple(b.tloc or ()), tuple((s[1] or ()) for s in b.tstack)) not in rb}
    if not only and not onlybr: return
    def report(ins, what, loc=None):
        R.add('%s build differs' % name, locstr((loc or ins.loc) or f.loc), '%s: %s' % (f.pretty, what), [f.pretty] + ([s[0] for s in ins.stack] if ins is not None else []))
    # variables of the configuration-only code
    usedcommon = set(); decl = {}
    for i in common:
        for e in i.exprs():
            for x in e.walk():
                if x.k == 'var': usedcommon.add(x.a[0])
        if i.dst is not None:
            for x in i.dst.walk():
                if x.k == 'var': usedcommon.add(x.a[0])
    for b in cfg.blocks:
        if b.term and b.term[0] == 'br' and b not in onlybr:
            for x in b.term[1].walk():
                if x.k == 'var': usedcommon.add(x.a[0])
        if b.term and b.term[0] == 'ret' and b.term[1] is not None:
            for x in b.term[1].walk():
                if x.k == 'var': usedcommon.add(x.a[0])
    # which locals does the code own? (written only by configuration-only code and not used elsewhere)
    ssa(cfg)
    pv = effects.Prov(P, cfg)
    nulls = nullfrees(cfg)
    def ownroot(r):
        if r[0] == 'alloc': return r[1] in only
        if r[0] == 'var': return r[1].kind in ('local', 'temp') and r[1] not in usedcommon
        if r[0] == 'str': return True
        return False
    for i in only:
        if i.op == 'set':
            if i.outs:
                if i.outs[0].var in usedcommon: report(i, '%s is set in this build only' % i.outs[0].var.name)
                continue
            rs = pv.lvroots(i.lv)
            if i.lv.k == 'var' and i.lv.a[0] not in usedcommon and i.lv.a[0].kind in ('local', 'temp'): continue
            if i.lv.k == 'var' and i.lv.a[0].kind in ('global', 'static') and i.lv.a[0] not in usedcommon: continue
            if not rs or not all(ownroot(r) for r in rs): report(i, '%s is written in this build only' % show(i.lv))
        elif i.op == 'call':
            nm = cname(i); s = effects.short(nm)
            for o in i.outs or ():
                if o.var in usedcommon and o.kind in ('callout', 'callret'): report(i, '%s is set by %s in this build only' % (o.var.name, nm))
            if nm in NORET: continue
            if s in PRINT or s in effects.READERS or s.startswith('operator new') or nm in effects.ACQ: continue
            if nm in ('free', '_mm_free') and (not pv.prov(i.args[0]) or i in nulls): continue      # NULL
            bad = [a for a in pv.callwrites(i) if not pv.prov(a) or not all(ownroot(r) for r in pv.prov(a))]
            if bad: report(i, '%s changes %s in this build only' % (nm, show(bad[0])))
            elif s in effects.STREAM or s in ('fopen', 'fread', 'fgets', 'fscanf', 'remove', 'rename', 'system', 'setenv', 'srand', 'rand', 'omp_set_num_threads'): report(i, '%s is called in this build only' % nm)
        elif i.op in ('barrier', 'parallel', 'endparallel', 'fence', 'asm'):
            if i.op in ('barrier', 'fence'): report(i, 'a %s exists in this build only' % i.op)
    # nothing common may depend on a configuration-only branch
    pd = par.postdominators(cfg)
    for b in onlybr:
        j = pd.get(b)
        seen = set(); st = list(b.succs)
        while st:
            x = st.pop()
            if x in seen or x is j: continue
            seen.add(x)
            if loops.dead(x): continue
            for i in x.ins:
                if i in common and i.op in ('set', 'call') and not (i.outs and i.outs[0].var not in usedcommon):
                    report(i, 'whether this is executed depends on a test of this build only (%s)' % locstr(b.tloc)); st = []; break
            else:
                if x.term and x.term[0] == 'ret': report(None, 'returns in this build only', b.tloc)
                st += [s for s in x.succs]
    # the same construct must mean the same
    for i in common:
        if texts[i] not in rk[ikey(i)]:
            report(i, 'differs from the %s build: %s' % (other, show(i.lv) + ' = ' + show(i.e) if i.op == 'set' else i))

def fn(R, tier):
    (n1, f1), (n2, f2) = runner.configs(tier)
    P, Q = runner.program(f1), runner.program(f2)
    for name in sorted(set(P.records) | set(Q.records)):
        a, b = P.records.get(name), Q.records.get(name)
        if a is None or b is None:
            continue
        R.count('classes')
        fa, fb = [(x['name'], x['ty'].s) for x in a['fields']], [(x['name'], x['ty'].s) for x in b['fields']]
        if fa != fb and not name.startswith('std::'): R.add('layout differs', '?', 'class %s has different members in the two builds: %s' % (name, sorted(set(fa) ^ set(fb))))
    rp = {f.m: f for f in api.roots(P)}; rq = {f.m: f for f in api.roots(Q)}
    for m in sorted(set(rp) | set(rq)):
        if m not in rp or m not in rq:
            f = rp.get(m) or rq.get(m)
            R.add('interface differs', locstr(f.loc), '%s exists in one build only' % f.pretty); continue
        R.count('functions')
        compare(R, P, rp[m], Q, rq[m], n1, n2); compare(R, Q, rq[m], P, rp[m], n2, n1)
if __name__ == '__main__':
    runner.main('S06', 'debug and release builds agree', fn, 'other',
    'Configuration difference: every public function (callees inlined) is lowered with and without NDEBUG; instructions and branches that exist in one build only - assertion conditions, checking code - '
    'must not write memory or variables used elsewhere, synchronise, or decide whether other code runs; constructs that exist in both must mean the same, and classes must have the same members.',
    minimum={'functions': 140, 'instructions': 50000, 'config_only': 300, 'classes': 10},
    assumptions=['a failing assertion ends the program: code after it is judged for executions in which no assertion fails'])
