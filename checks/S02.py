import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'analysis'))
import runner, api, effects, loops
from core import *
from typestate import cname

CONV = {'make0BasedIndexing': 0, 'make1BasedIndexing': 1}
EXT = ('rowptr', 'colidx', 'diagptr', 'extptr')

# ------------------------------------------------------------------ A: a conversion moves every index by one
def convert(R, P, f, tgt):
    cfg = lower(P, f, inline=lambda g, d: not g.file.startswith('/')); ssa(cfg)
    pv = effects.Prov(P, cfg); C = loops.counted(cfg)
    nat = loops.natural(cfg)
    done = {}
    this = None
    def fieldld(F): return [k for k in ()]
    def isld(k, F, idx=None):
        """leaf key: load of this->F (idx None) or this->F[idx]"""
        if k == 1 or k[0] != 'ld': return False
        x = k[1]
        if idx is None: return x[0] == 'fld' and x[-1] == F
        if x[0] != 'at': return False
        p, i = x[1], x[2]
        if not isld(p, F): return False
        return i == ('int', 0) if idx == 0 else isld(i, idx)
    def extent(F, hi, at):
        """None if [0, hi) is the whole array"""
        h = dict(hi); c = h.pop(1, 0)
        if F in ('diagptr', 'extptr', 'rowptr'):
            want = 1 if F == 'rowptr' else 0
            return len(h) == 1 and isld(list(h)[0], 'm') and list(h.values()) == [1] and c == want
        pos = [k for k, v in h.items() if v == 1]; neg = [k for k, v in h.items() if v == -1]
        if len(pos) != 1 or len(pos) + len(neg) != len(h) or not isld(pos[0], 'rowptr', 'm'): return False
        if len(neg) == 1: return isld(neg[0], 'rowptr', 0) and c == 0
        return not neg and c == -(1 - tgt if at else tgt)
    for ins in cfg.instrs():
        if ins.op == 'call' and pv.callwrites(ins):
            for a in pv.callwrites(ins):
                for r in pv.prov(a):
                    g = effects.region(cfg, r)
                    if g and g.startswith('this->'): R.add('conversion', ins.loc, '%s: %s is changed in a way that is not followed' % (f.short, g)); done[g[6:]] = True
        if ins.op != 'set' or ins.outs: continue
        for r in pv.lvroots(ins.lv):
            g = effects.region(cfg, r)
            if not g or not g.startswith('this->'): continue
            F = g[6:]
            R.count('conversion_stores')
            if F not in EXT: R.add('conversion', ins.loc, '%s changes %s, which holds no indices' % (f.short, F)); continue
            lv = ins.lv
            i = loops.lf(lv.a[1]) if lv.k == 'at' else {}
            cs = [c for c in C if ins.block in c.body and i == {('ssa', c.sv.uid): 1}]
            d = loops.plus(loops.lf(ins.e), loops.lf(E('ld', (lv,), ins.ty)), -1)
            d2 = loops.lf(strip_casts(loops.canon(ins.e))); own = loops.canon(E('ld', (lv,), ins.ty)).key
            d = loops.plus(d2, {own: 1}, -1)
            if loops.const(d) != (1 if tgt else -1):
                R.add('conversion', ins.loc, '%s: %s[] is not moved by exactly %+d' % (f.short, F, 1 if tgt else -1)); done[F] = True; continue
            if not cs: R.add('conversion', ins.loc, '%s: the elements of %s are not visited by a counted loop over the whole array' % (f.short, F)); done[F] = True; continue
            c = cs[0]
            lo, hi = (c.lo, c.hi) if c.step > 0 else (c.hi, loops.plus(c.lo, {1: 1}))
            before = not any(g2 == 'rowptr' for g2 in done)
            if lo or abs(c.step) != 1 or not c.exact or not (extent(F, hi, before)):
                R.add('conversion', ins.loc, '%s: only part of %s is moved to base %d' % (f.short, F, tgt)); done[F] = True; continue
            # may only depend on the presence of the array and the current base
            pd = par_controls(cfg, c.head)
            for t, loc in pd:
                e = strip_casts(loops.canon(t))
                fs = {x.a[2] for x in e.walk() if x.k == 'fld'}
                if fs <= {F} or fs <= {'rowptr'} and not any(x.k == 'ssa' and x.a[0].kind == 'phi' for x in e.walk()): continue
                R.add('conversion', loc, '%s: moving %s depends on %s' % (f.short, F, show(e)))
            if F in done: R.add('conversion', ins.loc, '%s: %s is moved twice' % (f.short, F))
            done[F] = True
    for F in EXT:
        R.count('index_arrays')
        if F not in done: R.add('conversion', f.loc, '%s does not move %s' % (f.short, F))

def par_controls(cfg, h):
    """conditions that decide whether block h is reached"""
    import par
    pd = par.postdominators(cfg)
    def pdom(a, b):
        n = 0
        while b is not None and n < 10000:
            if b is a: return True
            q = pd.get(b); b = q if q is not b else None; n += 1
        return False
    out = []; work = [h]; seen = set()
    while work:
        y = work.pop()
        if y in seen: continue
        seen.add(y)
        for b in cfg.order:
            if b is not y and len(b.succs) > 1 and b.term[0] == 'br' and not pdom(y, b) and any(pdom(y, s) for s in b.succs):
                if b.term[1].k != 'ompcond': out.append((b.term[1], b.tloc))
                work.append(b)
    return [x for x in out]

# ------------------------------------------------------------------ B: temporary conversions are undone
NONE = 'none'
class Base:
    """values of the index bases of the objects along the paths of a function, for one original base.
    State: set of tuples, one base per object."""
    def __init__(self, P, cfg, pv, objs, b0, pbase):
        self.P, self.cfg, self.pv, self.objs, self.b0, self.pbase = P, cfg, pv, objs, b0, pbase
        self.sv = {}
        init = tuple(b0 if pbase is None else NONE for o in objs)
        inn = {b: set() for b in cfg.blocks}; inn[cfg.entry] = {init}
        for _ in range(80):
            self.changed = False; self.out = {}
            new = {b: set(inn[b]) for b in cfg.blocks}
            for b in cfg.order:
                st = new[b]
                if not st: continue
                for ins in b.ins: st = self.step(ins, st)
                t = b.term
                ss = b.succs
                if t and t[0] == 'br':
                    v = self.ev(t[1])
                    if v is not None and len(v) == 1: ss = [t[2] if list(v)[0] else t[3]]
                    elif v is not None and not v: ss = []
                for s in ss: new[s] |= st
                self.out[b] = st
            if new == inn and not self.changed: break
            inn = new
        self.inn = inn
    def which(self, p):
        pr = self.pv.prov(p)
        return [i for i, o in enumerate(self.objs) if o in pr]
    def fieldof(self, lv):
        """(objects, field) an lvalue denotes"""
        if lv.k == 'fld' and lv.a[0].k == 'at': return self.which(lv.a[0].a[0]), lv.a[2]
        if lv.k == 'fld' and lv.a[0].k == 'var': return [i for i, o in enumerate(self.objs) if o == ('var', lv.a[0].a[0])], lv.a[2]
        return [], None
    def put(self, st, k, vs): return {t[:i] + (v,) + t[i+1:] for t in st for i in k for v in vs} if k else st
    def step(self, ins, st):
        if ins.op == 'set':
            if ins.outs:
                o = ins.outs[0]
                old = self.sv.get(o, set())
                v = self.ev(ins.e, st)
                n = None if v is None or old is None else old | v
                if o not in self.sv or n != old: self.sv[o] = n; self.changed = True
                return st
            k, F = self.fieldof(ins.lv)
            if F == 'rowptr' and k:
                e = strip_casts(resolve(ins.e))
                return self.put(st, k, [NONE if e.k == 'null' or e.k == 'int' else 0])
            lv = ins.lv
            if lv.k == 'at' and strip_casts(resolve(lv.a[1])).k == 'int' and strip_casts(resolve(lv.a[1])).a[0] == 0:
                pr = self.pv.prov(lv.a[0])
                k = [i for i, o in enumerate(self.objs) if ('in', o, 'rowptr') in pr]
                v = self.ev(ins.e, st)
                if k and v: return self.put(st, k, v)
        elif ins.op == 'call' and ins.this is not None:
            s = cname(ins).split('::')[-1]
            if s in CONV: return self.put(st, self.which(ins.this), [CONV[s]])
            if s == 'dealloc': return self.put(st, self.which(ins.this), [NONE])
        return st
    def ev(self, e, st=None):
        """set of possible values, None: anything"""
        k = e.k
        if k == 'cast': return self.ev(e.a[1], st)
        if k == 'int': return {e.a[0]}
        if k == 'tparm': return self.ev(e.a[1], st) if isinstance(e.a[1], E) else None
        if k == 'ssa':
            s = e.a[0]
            if s.kind == 'param':
                return {self.pbase} if self.pbase is not None and s.var.name.lower().endswith('base') else None
            if s.kind == 'set': return self.sv.get(s, set())
            if s.kind == 'phi':
                r = set()
                for o in s.d.ops.values():
                    if o is s: continue
                    if o.kind == 'phi': return None
                    v = self.ev(E('ssa', (o,)), st)
                    if v is None: return None
                    r |= v
                return r
            return None
        if k == 'ld':
            lv = e.a[0]
            if st is not None and lv.k == 'at' and strip_casts(resolve(lv.a[1])).k == 'int' and strip_casts(resolve(lv.a[1])).a[0] == 0:
                p = strip_casts(resolve(lv.a[0]))
                if p.k == 'ld':
                    o, F = self.fieldof(p.a[0])
                    if F == 'rowptr' and o: return {t[i] for t in st for i in o if t[i] != NONE} or None
            return None
        if k == 'un' and e.a[0] in ('!', '-'):
            v = self.ev(e.a[1], st); return None if v is None else {int(not x) if e.a[0] == '!' else -x for x in v}
        if k == 'cond':
            c = self.ev(e.a[0], st)
            r = set()
            for v in (0, 1) if c is None else c:
                w = self.ev(e.a[1] if v else e.a[2], st)
                if w is None: return None
                r |= w
            return r
        if k == 'bin':
            x, y = self.ev(e.a[1], st), self.ev(e.a[2], st)
            op = e.a[0]
            if op in ('&&', '||'):
                for v in (x, y):
                    if v is not None and len(v) == 1 and bool(list(v)[0]) == (op == '||'): return {int(op == '||')}
            if x is None or y is None: return None
            f = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b,
                 '&&': lambda a, b: a and b, '||': lambda a, b: a or b, '+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a*b, '&': lambda a, b: a & b, '^': lambda a, b: a ^ b}.get(op)
            if f is None: return None
            return {int(f(a, b)) for a in x for b in y}
        return None

def undone(R, P, f):
    cfg = lower(P, f, inline=lambda g, d: not g.file.startswith('/') and g.short not in CONV and g.short != 'dealloc'); ssa(cfg)
    calls = [i for i in cfg.instrs() if i.op == 'call' and cname(i).split('::')[-1] in CONV and i.this is not None]
    if not calls or f.short in CONV: return
    pv = effects.Prov(P, cfg)
    objs = sorted({r for i in calls for r in pv.prov(i.this)}, key=repr)
    R.count('converting_functions'); R.count('conversions', len(calls))
    pb = [p['name'] for p in f.params if p['name'].lower().endswith('base')]
    for b0 in (0, 1):
        B = Base(P, cfg, pv, objs, b0, b0 if pb else None)
        end = set()
        for b in cfg.order:
            if (b.term and b.term[0] == 'ret') or not b.succs and not (b.term and b.term[0] == 'unreach'): end |= B.out.get(b, set())
        R.count('scenarios')
        if not end: R.undecided += 1
        for i, o in enumerate(objs):
            if effects.region(cfg, o) is None: continue
            R.count('converted_objects')
            bad = {t[i] for t in end} - {b0, NONE}
            if bad:
                R.add('base not restored', locstr(calls[0].loc), '%s leaves %s %d-based when %s is %d-based' % (f.pretty, effects.rshow(o), list(bad)[0], 'the requested result' if pb else 'the matrix it was given', b0), [f.pretty] + ['%s at %s' % (cname(c), locstr(c.loc)) for c in calls])
    R.sample('%s: %d conversions of %s undone on every path' % (f.pretty, len(calls), ', '.join(sorted({effects.rshow(o) for o in objs}))))

def fn(R, tier):
    for cn, flags in runner.configs(tier):
        P = runner.program(flags)
        for f in api.roots(P):
            if f.short in CONV and f.rec == 'SpMP::CSR': convert(R, P, f, CONV[f.short])
            else: undone(R, P, f)
if __name__ == '__main__':
    runner.main('S02', 'base conversions are complete and undone', fn, 'other',
    'Conversions: every index array of the matrix is moved by exactly one over its whole length, depending only on its presence and the current base. '
    'Temporary conversions: for an original base of 0 and of 1 the base of every caller-visible matrix is propagated along all paths (branches on the base decided); it must be the original one, or the requested one, at every exit.',
    minimum={'index_arrays': 16, 'conversions': 10, 'scenarios': 16, 'conversion_stores': 16},
    assumptions=['freshly allocated index arrays are filled 0-based unless their first element says otherwise (S01 decides the contents)'])
