"""Index-base dimension inference.

Every integer and pointer of a function carries a coefficient u: by how much the
value moves when the same matrix is given with indices starting at 1 instead of 0.
Pointers additionally have a content node (the coefficient of what they point to).
The program text yields linear equations over these coefficients:

  element access p[i]          u(p)+u(i) = 0   (the same physical element)
  x = y, x == y, x < y         u(x) = u(y)
  x + y, x - y, p + i          u is additive
  sizes, counts, file output   u = 0
  free(p), memcpy(p, q, ..)    u(p) = 0

Seeds: contents of CSR's rowptr, colidx, diagptr and extptr have coefficient 1, all
other fields and scalar parameters 0, a parameter called base 1.
An equation that contradicts the others is a place that treats 0- and 1-based
matrices differently.
"""
from fractions import Fraction
from core import *

class Node:
    """Abstract value: coefficient variable + content."""
    _n = itertools.count()
    __slots__ = ('id', 'par', 'pt', 'flds')
    def __init__(self):
        self.id = next(Node._n); self.par = None; self.pt = None; self.flds = None
    def find(self):
        r = self
        while r.par is not None: r = r.par
        x = self
        while x.par is not None:
            x.par, x = r, x.par
        return r

class Conflict(Exception): pass

class Solver:
    """Incremental Gaussian elimination over the rationals. Row: {var: coeff}, const."""
    def __init__(self):
        self.rows = {}          # pivot var -> (dict without pivot, const):   pivot = sum + const
    def reduce(self, d, c):
        d = dict(d); ch = True
        while ch:
            ch = False
            for v in list(d):
                if v in self.rows:
                    k = d.pop(v); rd, rc = self.rows[v]
                    for w, q in rd.items():
                        d[w] = d.get(w, 0) + k * q
                        if d[w] == 0: del d[w]
                    c += k * rc
                    ch = True
                    break
        return d, c
    def add(self, d, c):
        """sum d + c = 0. Returns False on contradiction."""
        d, c = self.reduce({k: Fraction(v) for k, v in d.items() if v}, Fraction(c))
        if not d: return c == 0
        # newest variable becomes the pivot; symbolic factors are never determined
        ps = [v for v in d if isinstance(v, int)]
        if not ps: return False
        p = max(ps); k = d.pop(p)
        self.rows[p] = ({w: -q / k for w, q in d.items()}, -c / k)
        return True
    def value(self, d, c=0):
        d, c = self.reduce({k: Fraction(v) for k, v in d.items() if v}, Fraction(c))
        return c if not d else None

CONTENT1 = {('SpMP::CSR', f) for f in ('rowptr', 'colidx', 'diagptr', 'extptr')}
ROWNAMES = {'rowptr', 'colidx', 'diagptr', 'extptr'}

ALLOC = {'_mm_malloc': 0, 'malloc': 0, 'operator new': None, 'operator new[]': 0}

class Units:
    def __init__(self, prog, cfg, report, root=True):
        self.P = prog; self.cfg = cfg; self.report = report
        self.S = Solver()
        self.svn = {}; self.varn = {}; self.fieldn = {}
        self.zero = None
        self.nodes = []
        self.eqs = 0; self.accesses = 0
        self.conf = []
        self.root = root
        self.syms = set(); self._facts = {}
        self.tuses = {}
        self.acc = {}; self.anyacc = set(); self.rebased = []; self.deferred = []
    # -- nodes
    def node(self):
        return Node()
    def u(self, n):
        n = n.find(); return {n.id: 1}
    def eq(self, d, c, why, loc, ins=None):
        self.eqs += 1
        if ins is not None and self.syms:
            f = self.facts(ins)
            if f:
                d, c = self.S.reduce({k: Fraction(v) for k, v in d.items() if v}, Fraction(c))
                for k in list(d):
                    if k in f: c += d.pop(k) * f[k]
        if not self.S.add(d, c):
            self.conf.append((why, loc, ins))
            return False
        return True
    def facts(self, ins):
        """Symbolic factors whose value is fixed by the branches on the way to ins."""
        b = ins.x if ins.op == 'br' else ins.block
        if b is None: return {}
        if b not in self._facts:
            r = {}
            x = b
            while True:
                p = self.cfg.idom.get(x)
                if p is None or p is x: break
                t = p.term
                if t and t[0] == 'br' and t[2] is not t[3]:
                    e = strip_casts(resolve(t[1]))
                    if e.k == 'bin' and e.a[0] in ('==', '!='):
                        tgt = t[2] if e.a[0] == '==' else t[3]
                        if len(tgt.preds) == 1 and dominates(self.cfg.idom, tgt, b):
                            for u, v in ((e.a[1], e.a[2]), (e.a[2], e.a[1])):
                                if intval(v) is not None: r[('S', strip_casts(u).key)] = intval(v)
                x = p
            self._facts[b] = r
        return self._facts[b]
    def basefacts(self, ins):
        """Outcomes of tests of the index base on the way to ins: set of (op, constant)."""
        b = ins.x if ins.op == 'br' else ins.block
        r = set(); x = b
        while b is not None:
            p = self.cfg.idom.get(x)
            if p is None or p is x: break
            t = p.term
            if t and t[0] == 'br' and t[2] is not t[3]:
                for tgt, pol in ((t[2], True), (t[3], False)):
                    if len(tgt.preds) == 1 and dominates(self.cfg.idom, tgt, b):
                        e = strip_casts(resolve(t[1]))
                        while e.k == 'un' and e.a[0] == '!': pol = not pol; e = strip_casts(e.a[1])
                        if e.k == 'bin' and e.a[0] in ('==', '!='):
                            for u, v in ((e.a[1], e.a[2]), (e.a[2], e.a[1])):
                                if intval(v) is not None and self.isbase(u, ins): r.add(('==' if (e.a[0] == '==') == pol else '!=', intval(v)))
                        elif e.k != 'tparm' and self.isbase(e, ins): r.add(('!=' if pol else '==', 0))
            x = p
        return r
    def isbase(self, e, ins):
        if not is_base(e) or strip_casts(e).k == 'tparm': return False
        v = self.val(e, ins)
        return v is not None and self.S.value(v[0], v[1]) == 1
    def dispatch(self):
        """An instance specialised for index base K (template argument) runs only when the base is K."""
        self.ndispatch = 0
        for (name, v, stack), ins in self.tuses.items():
            n = self.tparm(name, ins)
            if v is None or self.S.value({n.find().id: 1}) != 1: continue
            self.ndispatch += 1
            f = self.basefacts(ins)
            bad = any((op == '==' and c != v) or (op == '!=' and c == v) for op, c in f)
            if bad or not f:
                call = ins.stack[-1] if ins.stack else (self.cfg.fn.pretty, self.cfg.fn.loc)
                self.conf.append(('code specialised for index base %d runs %s (%s = %d)' % (v, 'when the base is known to be different' if bad else 'without testing the base of the matrix', name, v), call[1], ins))
    def pointee(self, n):
        n = n.find()
        if n.pt is None: n.pt = Node()
        return n.pt.find()
    def unify(self, a, b, why, loc, ins=None, seen=None):
        """Same coefficient, same content."""
        a = a.find(); b = b.find()
        if a is b: return
        self.eq({a.id: 1, b.id: -1}, 0, why, loc, ins)
        self.unify_content(a, b, why, loc, ins)
    def unify_content(self, a, b, why, loc, ins=None):
        a = a.find(); b = b.find()
        if a is b: return
        if a.pt is None and b.pt is None:
            n = Node(); a.pt = n; b.pt = n; return
        if a.pt is None: a.pt = b.pt; return
        if b.pt is None: b.pt = a.pt; return
        x = a.pt.find(); y = b.pt.find()
        if x is y: return
        # contents become one node
        self.eq({x.id: 1, y.id: -1}, 0, why + ' (array contents)', loc, ins)
        px, py = x.pt, y.pt
        y.par = x
        # keep equality of the two coefficient variables
        if px is None: x.pt = py
        elif py is not None and px.find() is not py.find():
            t1, t2 = Node(), Node(); t1.pt, t2.pt = px, py
            self.unify_content(t1, t2, why, loc, ins)
        if y.flds:
            x.flds = x.flds or {}
            for k, v in y.flds.items(): x.flds.setdefault(k, v)
    def const(self, c, n=None):
        n = Node() if n is None else n
        self.S.add({n.id: 1}, -c); return n
    def phases(self):
        """For every object on which make0/1BasedIndexing is called: the set of instructions at
        which its indices are 0-based regardless of the input."""
        cfg = self.cfg
        calls = {}
        for ins in cfg.instrs():
            if ins.op == 'call' and isinstance(ins.x, dict) and ins.this is not None:
                nm = (ins.x['name'] or '').split('::')[-1]
                if nm in ('make0BasedIndexing', 'make1BasedIndexing'):
                    calls.setdefault(objkey(ins.this), {})[ins] = nm[4]
        self.zero0 = {}
        for ob, cs in calls.items():
            last = {b: set() for b in cfg.blocks}     # reaching, at block end
            def flow(b, st, rec=None):
                for ins in b.ins:
                    if rec is not None: rec[ins] = set(st)
                    if ins in cs: st = {cs[ins]}
                return st
            ch = True; inn = {}
            while ch:
                ch = False
                for b in cfg.order:
                    st = set()
                    if b is cfg.entry: st = {'-'}
                    for q in b.preds: st |= last[q]
                    inn[b] = st
                    o = flow(b, st)
                    if o != last[b]: last[b] = set(o); ch = True
            rl = {}
            for b in cfg.blocks: flow(b, inn[b], rl)
            nxt = {b: set() for b in cfg.blocks}      # next call, at block start
            def bflow(b, st, rec=None):
                for ins in reversed(b.ins):
                    if ins in cs: st = {cs[ins]}
                    if rec is not None: rec[ins] = set(st)
                return st
            ch = True; out = {}
            while ch:
                ch = False
                for b in reversed(cfg.order):
                    st = set()
                    for q in b.succs: st |= nxt[q]
                    out[b] = st
                    o = bflow(b, st)
                    if o != nxt[b]: nxt[b] = set(o); ch = True
            rn = {}
            for b in cfg.blocks: bflow(b, out[b], rn)
            z = set()
            for b in cfg.blocks:
                for ins in b.ins:
                    l, n = rl[ins], rn[ins]
                    if l == {'0'} or ('1' not in l and l == {'-'} and n == {'1'} and ins not in cs): z.add(ins)
                l = last[b]; n = out[b]
                if l == {'0'} or (l == {'-'} and n == {'1'}): z.add(b)
            self.zero0[ob] = z
    def phase(self, lv, ins):
        z = self.zero0.get(objkey(E('addr', (lv.a[0],)) if not (lv.a[0].k == 'at') else lv.a[0].a[0]))
        if z is None: return 1
        return 0 if (ins in z or (ins.op == 'br' and ins.x in z)) else 1
    def field(self, rec, f, phase=1, obj=None, seeded=True):
        k = (rec, f, phase, obj)
        if k not in self.fieldn:
            n = Node(); self.fieldn[k] = n
            r = self.P.records.get(rec)
            ty = None
            if r:
                for x in r['fields']:
                    if x['name'] == f: ty = x['ty']
            if rec == 'SpMP::CSR':
                self.S.add({n.id: 1}, 0)
                if (rec, f) in CONTENT1 and seeded: self.const(phase, self.pointee(n))
            elif ty is not None and ty.k == 'ptr':
                self.S.add({n.id: 1}, 0)
            elif ty is not None and ty.isint:
                self.S.add({n.id: 1}, -1 if f.strip('_').lower() == 'base' else 0)
        return self.fieldn[k]
    def varnode(self, v):
        if v not in self.varn: self.varn[v] = Node()
        return self.varn[v]
    def svnode(self, s):
        if s not in self.svn:
            n = self.svn[s] = Node()
            if s.kind == 'param' and self.root: self.seed_param(s.var, n)
        return self.svn[s]
    def seed_param(self, v, n):
        ty = v.ty
        if ty is None: return
        if ty.isint:
            self.S.add({n.id: 1}, -1 if 'base' in v.name.lower() else 0)
        elif ty.k in ('ptr', 'ref'):
            self.S.add({n.id: 1}, 0)
            nm = v.name.lower()
            p = ty.p
            tgt = n
            while p is not None and p.k == 'ptr':
                tgt = self.pointee(tgt); self.S.add({tgt.id: 1}, 0); p = p.p   # arrays handed in or out start at their allocation
            if p is not None and p.isint:
                if any(nm == r or nm.endswith(r) for r in ROWNAMES) and not nm.startswith('coo'): self.const(1, self.pointee(tgt))
                elif 'perm' in nm: self.const(0, self.pointee(tgt))
    # -- expressions: returns (node, affine dict) ; affine dict: {nodeid: coeff}
    def val(self, e, ins):
        """Returns (lin: dict over node ids, const, content node or None)."""
        k = e.k
        if k in ('int', 'float', 'sizeof', 'str', 'undef', 'fn', 'ompcond'):
            return {}, 0, None
        if k == 'null': return None
        if k == 'tparm':
            n = self.tparm(e.a[0], ins)
            if ins is not None: self.tuses.setdefault((e.a[0], intval(e.a[1]), ins.stack), ins)
            return {n.find().id: 1}, 0, None
        if k == 'ssa':
            n = self.svnode(e.a[0]).find(); return {n.id: 1}, 0, n
        if k == 'ld':
            n = self.lval(e.a[0], ins)
            if n is None: return None
            n = n.find(); return {n.id: 1}, 0, n
        if k == 'decay':
            n = self.lval(e.a[0], ins)
            h = Node(); h.pt = n; self.S.add({h.id: 1}, 0)
            return {}, 0, h
        if k == 'addr':
            lv = e.a[0]
            if lv.k == 'at':
                # &p[i]: pointer p+i
                a = self.val(lv.a[0], ins); b = self.val(lv.a[1], ins)
                if a is None: return None
                if b is None: b = ({}, 0, None)
                return add(a[0], b[0]), a[1] + b[1], a[2]
            n = self.lval(lv, ins)
            h = Node(); h.pt = n; self.S.add({h.id: 1}, 0)
            return {}, 0, h
        if k == 'cast':
            r = self.val(e.a[1], ins)
            if r is None: return None
            if e.a[0] in ('IntegralToFloating',):
                self.zero_eq(r, 'a value that depends on the index base is converted to floating point: %s' % show(e.a[1]), e.loc or ins.loc, ins)
                return {}, 0, None
            if e.a[0] == 'BitCast' and r[2] is not None and e.ty is not None and e.ty.k == 'ptr' and e.ty.p is not None and e.ty.p.isint and e.ty.p.w != 8:
                s = e.a[1].ty
                if s is not None and s.k == 'ptr' and s.p is not None and (s.p.k == 'void' or s.p.w == 8):
                    return r[0], r[1], Node()      # raw memory: a new array
            if e.a[0] in ('FloatingToIntegral', 'PointerToIntegral', 'IntegralToPointer', 'PointerToBoolean', 'IntegralToBoolean'): return {}, 0, None
            return r
        if k == 'un':
            r = self.val(e.a[1], ins)
            if r is None: return None
            if e.a[0] == '-': return scale(r[0], -1), -r[1], None
            if e.a[0] == '~':
                self.zero_eq(r, 'bit operation on a base-dependent value', e.loc or ins.loc, ins)
            return {}, 0, None
        if k == 'cond':
            self.cond(e.a[0], ins)
            x = self.val(e.a[1], ins); y = self.val(e.a[2], ins)
            if x is None: return y
            if y is None: return x
            self.same(x, y, 'both arms of ?: %s' % show(e), e.loc or ins.loc, ins)
            return x
        if k == 'bin':
            op = e.a[0]; ea, eb = e.a[1], e.a[2]
            if op in ('==', '!=', '<', '>', '<=', '>=', '&&', '||'):
                self.cond(e, ins); return {}, 0, None
            x = self.val(ea, ins); y = self.val(eb, ins)
            if isfloat(ea.ty) or isfloat(eb.ty) or isfloat(e.ty): return {}, 0, None
            if x is None or y is None: return None
            loc = e.loc or ins.loc
            if op == '+': return add(x[0], y[0]), x[1] + y[1], x[2] if isp(ea) else (y[2] if isp(eb) else None)
            if op == '-':
                return add(x[0], scale(y[0], -1)), x[1] - y[1], (x[2] if isp(ea) and not isp(eb) else None)
            if op in ('min', 'max'):
                if intval(resolve(ea)) in SENTINELS: return y
                if intval(resolve(eb)) in SENTINELS: return x
                self.same(x, y, '%s of values of different base' % op, loc, ins); return x
            if op == '*':
                ca, cb = intval(ea), intval(eb)
                if cb is not None: return scale(x[0], cb), x[1] * cb, None
                if ca is not None: return scale(y[0], ca), y[1] * ca, None
                for q, o in ((strip_casts(ea), y), (strip_casts(eb), x)):
                    if q.k == 'sizeof': return scale(o[0], q.a[0]), o[1] * q.a[0], None
                for (p, pe), (q, qe) in (((x, ea), (y, eb)), ((y, eb), (x, ea))):
                    k = self.S.value(p[0], p[1]); z = self.S.value(q[0], q[1])
                    if k is not None and z == 0:
                        sy = ('S', strip_casts(resolve(qe)).key)
                        if k: self.syms.add(sy)
                        return ({sy: k} if k else {}), 0, None
                self.zero_eq(x, 'multiplication of a base-dependent value: %s' % show(e), loc, ins)
                self.zero_eq(y, 'multiplication of a base-dependent value: %s' % show(e), loc, ins)
                return {}, 0, None
            if op == '/':
                cb = intval(eb)
                if cb: return scale(x[0], Fraction(1, cb)), x[1] / cb if x[1] else 0, None
            if op in ('/', '%', '<<', '>>', '&', '|', '^'):
                self.zero_eq(x, "operator %s on a base-dependent value: %s" % (op, show(e)), loc, ins)
                self.zero_eq(y, "operator %s on a base-dependent value: %s" % (op, show(e)), loc, ins)
                return {}, 0, None
            return {}, 0, None
        return {}, 0, None
    def cond(self, e, ins):
        k = e.k
        if k == 'bin':
            op, a, b = e.a
            if op in ('&&', '||'): self.cond(a, ins); self.cond(b, ins); return
            if op in ('==', '!=', '<', '>', '<=', '>='):
                x = self.val(a, ins); y = self.val(b, ins)
                if x is None or y is None: return
                if isfloat(a.ty) or isfloat(b.ty): return
                if op in ('==', '!=') and (intval(a) is not None or intval(b) is not None): return
                if (intval(b) is not None and is_base(a)) or (intval(a) is not None and is_base(b)): return
                if any(q.ty is not None and q.ty.k == 'ptr' and q.ty.p is not None and (q.ty.p.k == 'void' or q.ty.p.w == 8) for q in (a, b)):
                    x = x[0], x[1], None           # address ranges of raw memory
                self.same(x, y, 'comparison %s %s %s' % (show(a), op, show(b)), e.loc or ins.loc, ins)
                return
        self.val(e, ins)
    def same(self, x, y, why, loc, ins):
        d = add(x[0], scale(y[0], -1))
        self.eq(d, x[1] - y[1], why, loc, ins)
        if x[2] is not None and y[2] is not None: self.unify_content(x[2], y[2], why, loc, ins)
    def zero_eq(self, x, why, loc, ins):
        if x is None: return
        self.eq(x[0], x[1], why, loc, ins)
    def tparm(self, name, ins):
        f = ins.fnname if ins is not None else ''
        key = ('tparm', name, f)
        if key not in self.varn: self.varn[key] = Node()
        return self.varn[key]
    def lval(self, lv, ins):
        k = lv.k
        if k == 'var':
            return self.varnode(lv.a[0])
        if k == 'fld':
            if lv.a[0].k != 'var': self.lval(lv.a[0], ins)
            ph = self.phase(lv, ins) if (lv.a[1], lv.a[2]) in CONTENT1 else 1
            if lv.a[1] == 'SpMP::CSR':
                ob = lv.a[0]
                loc = ob.k == 'var' and ob.a[0].kind != 'param'
                ob = objkey(ob.a[0]) if ob.k == 'at' else ob.key
                return self.field(lv.a[1], lv.a[2], ph, ob, not loc)
            return self.field(lv.a[1], lv.a[2])
        if k == 'at':
            p, i = lv.a
            x = self.val(p, ins); y = self.val(i, ins)
            if x is None: return None
            if y is None: y = ({}, 0, None)
            self.accesses += 1
            self.eq(add(x[0], y[0]), x[1] + y[1], 'element access %s' % show(lv), lv.loc or ins.loc, ins)
            n = x[2]
            if n is None: return Node()
            r = self.pointee(n)
            self.acc.setdefault(id(lv), (lv, r, ins.stack))
            if id(lv) in self.anyacc: return Node()
            return r
        return None
    def assign(self, n, e, why, loc, ins):
        x = self.val(e, ins)
        if x is None or n is None: return
        if isfloat(e.ty): return
        n = n.find()
        self.eq(add({n.id: 1}, scale(x[0], -1)), -x[1], why, loc, ins)
        if x[2] is not None: self.unify_content(n, x[2], why, loc, ins)
    # -- driver
    def run(self):
        cfg = self.cfg
        self.phases()
        for b in cfg.order:
            for p in b.phis:
                n = self.svnode(p.sv)
                for q, s in p.ops.items():
                    if s.kind == 'undef': continue
                    if self.known_null(s, q, b): continue
                    if intval(resolve(E('ssa', (s,)))) in SENTINELS: continue
                    m = self.svnode(s)
                    self.eq({n.find().id: 1, m.find().id: -1}, 0, 'value of %s joined from two paths' % p.var.name, b.ins[0].loc if b.ins else b.tloc, b.ins[0] if b.ins else None)
                    self.unify_content(n, m, 'contents of %s' % p.var.name, None)
            for ins in b.ins: self.instr(ins)
            t = b.term
            if t and t[0] == 'br':
                fake = I('br', b.tloc, x=b); fake.stack = b.tstack; fake.fnname = b.tstack[-1][0] if b.tstack else cfg.fn.pretty
                self.cond(t[1], fake)
            if t and t[0] == 'ret' and t[1] is not None and self.root:
                self.ret(t[1], b)
        self.scans()
        for v, sv in getattr(cfg, 'exitvals', {}).items():
            if self.root and sv.kind != 'param':
                n = self.svnode(sv)
                self.eq({n.find().id: 1}, 0, 'value handed out through %s depends on the index base' % v.name, cfg.fn.loc)
        for x, why, ins in self.deferred:
            if x is None: continue
            k = self.S.value(x[0], x[1])
            if k is not None and k < 0: self.conf.append((why + ' shrinks with the index base', ins.loc, ins))
        self.dispatch()
        return self.conf
    def scans(self):
        """Running totals kept in a variable: t = t + a[i]; a[i'] = t rewrites a like a[i'] += a[i]."""
        def addends(e):
            e = strip_casts(e)
            while e.k == 'ssa' and definition(e.a[0]) is not None: e = strip_casts(definition(e.a[0]))
            return addends(e.a[1]) + addends(e.a[2]) if e.k == 'bin' and e.a[0] == '+' else [e]
        tot = {}
        for b in self.cfg.order:
            for p in b.phis:
                for s in p.ops.values():
                    for q in [s] + [o for x in [resolve(E('ssa', (s,)))] if x.k == 'ssa' and x.a[0].kind == 'phi' for o in x.a[0].d.ops.values()]:
                        ads = addends(E('ssa', (q,)))
                        if not any(x.k == 'ssa' and x.a[0] is p.sv for x in ads): continue
                        for x in ads:
                            if x.k == 'ld' and x.a[0].k == 'at' and id(x.a[0]) in self.acc:
                                for t in (p.sv, s, q): tot.setdefault(t, set()).add(self.acc[id(x.a[0])][1].find())
        if not tot: return
        for ins in self.cfg.instrs():
            if ins.op == 'set' and ins.lv.k == 'at' and id(ins.lv) in self.acc:
                n = self.acc[id(ins.lv)][1].find()
                for x in addends(ins.e):
                    if x.k == 'ssa' and n in tot.get(x.a[0], ()): self.rebased.append((n, ins)); break
    def known_null(self, s, q, b):
        """Is s a null pointer whenever control goes from q to b?"""
        x = resolve(E('ssa', (s,)))
        if x.k == 'null': return True
        if s.var.ty is None or s.var.ty.k != 'ptr': return False
        node, nxt, n = q, b, 0
        while node is not None and n < 200:
            t = node.term
            if t and t[0] == 'br' and t[2] is not t[3]:
                pol = None
                if nxt is t[2] and len(t[2].preds) == 1 or (node is q and nxt is t[2]): pol = True
                elif nxt is t[3] and len(t[3].preds) == 1 or (node is q and nxt is t[3]): pol = False
                if pol is not None:
                    c, neg = null_test(t[1])
                    if c is not None and (resolve(c).key == x.key or c.key == ('ssa', s.uid)) and (pol == neg): return True
            nxt = node
            node = self.cfg.idom.get(node) if self.cfg.idom.get(node) is not node else None
            n += 1
        return False
    def ret(self, e, b):
        fn = self.cfg.fn
        fake = I('ret', fn.loc); fake.fnname = fn.pretty
        x = self.val(e, fake)
        if x is None: return
        if fn.short == 'getBase':
            self.eq(x[0], x[1] - 1, 'getBase must return the index base', fn.loc, fake); return
        if fn.rt.k in ('int', 'ptr'):
            self.zero_eq(x, 'result of %s depends on the index base' % fn.pretty, fn.loc, fake)
    def instr(self, ins):
        if ins.op == 'set':
            if ins.lv.k == 'var':
                v = ins.lv.a[0]
                n = self.svnode(ins.outs[0]) if ins.outs else self.varnode(v)
                self.assign(n, ins.e, 'assignment to %s' % v.name, ins.loc, ins)
            else:
                n = self.lval(ins.lv, ins)
                if ins.lv.k == 'at' and n is not None:
                    x = self.val(ins.e, ins)
                    own = n.find().id
                    if x is not None and own in x[0]:
                        k = self.S.value(add(x[0], {own: -1}), x[1])
                        if k is not None and k != 0: self.rebased.append((n, ins))
                self.assign(n, ins.e, 'store %s = %s' % (show(ins.lv), show(ins.e)), ins.loc, ins)
        elif ins.op == 'call': self.call(ins)
    def searched(self, arr, i, ins):
        """the value looked up lives in the same index space as the array"""
        if ins.refin and i in ins.refin: v = self.val(ins.refin[i], ins)
        else: return
        if v is None: return
        n = self.pointee(arr)
        self.eq(add(v[0], {n.find().id: -1}), v[1], 'value searched in an array of another base: %s' % show(ins.refin[i]), ins.loc, ins)
    def call(self, ins):
        nm = ins.x['name'] if isinstance(ins.x, dict) else ins.callee
        nm = nm or ''
        args = ins.args
        vals = [self.val(a, ins) for a in args]
        dst = None
        if ins.dst is not None:
            for s in ins.outs or ():
                if s.kind == 'callret': dst = self.svnode(s)
            if dst is None and ins.dst.k == 'var': dst = self.varnode(ins.dst.a[0])
        def z(i, what):
            if i < len(vals): self.zero_eq(vals[i], '%s of %s depends on the index base: %s' % (what, nm, show(args[i])), ins.loc, ins)
        base = nm.split('::')[-1]
        if ins.callee in ('operator new', 'operator new[]') or nm in ALLOC:
            if args: self.deferred.append((vals[0], 'allocation size %s' % show(args[0]), ins))
            if dst is not None: self.S.add({dst.find().id: 1}, 0)
        elif nm in ('free', '_mm_free') or (ins.callee or '').startswith('operator delete'):
            z(0, 'argument')
        elif nm in ('memcpy', 'memmove', 'std::copy') or base == 'parMemcpy':
            z(0, 'destination'); z(1, 'source'); z(2, 'size')
            if vals[0] and vals[1] and vals[0][2] is not None and vals[1][2] is not None: self.unify_content(vals[0][2], vals[1][2], 'copy', ins.loc, ins)
        elif nm in ('memset',) or base == 'parMemset':
            z(0, 'destination'); z(2, 'size')
        elif nm in ('fread', 'fwrite'):
            z(0, 'buffer'); z(2, 'count')
        elif nm in ('fprintf',):
            for i in range(2, len(args)): z(i, 'output value')
        elif base == 'sort' and len(vals) >= 2:
            z(0, 'range begin')
            if vals[1]: self.zero_eq(vals[1], 'range end of sort depends on the index base', ins.loc, ins)
        elif base in ('lower_bound', 'upper_bound') and len(vals) >= 3:
            z(0, 'range begin'); z(1, 'range end')
            if dst is not None and vals[0] and vals[0][2] is not None:
                self.S.add({dst.find().id: 1}, 0); self.unify_content(dst, vals[0][2], 'search', ins.loc, ins)
            if vals[0] and vals[0][2] is not None: self.searched(vals[0][2], 2, ins)
        elif base == 'binary_search' and len(vals) >= 3:
            z(0, 'range begin'); z(1, 'range end')
            if vals[0] and vals[0][2] is not None: self.searched(vals[0][2], 2, ins)
        elif base in ('operator[]', 'at') and ins.this is not None:
            z(0, 'index')
        elif nm in ('omp_get_thread_num', 'omp_get_num_threads', 'omp_get_max_threads', '__sync_fetch_and_add', 'atoi', 'strlen', 'abs'):
            if nm == '__sync_fetch_and_add':
                if vals[0] and vals[0][2] is not None and dst is not None:
                    self.unify(dst, self.pointee(vals[0][2]), 'fetch-and-add', ins.loc, ins)
            elif nm == 'abs':
                if vals and vals[0]: self.zero_eq(vals[0], 'abs of base-dependent value', ins.loc, ins)
            elif dst is not None: self.S.add({dst.find().id: 1}, 0)
        else:
            # unknown callee: scalars handed over must not depend on the base unless the callee takes a base
            pass

def null_test(e):
    """(pointer expression tested, truth value of e for which the pointer is null)"""
    e = strip_casts(e)
    if e.k == 'bin' and e.a[0] in ('==', '!='):
        for x, y in ((e.a[1], e.a[2]), (e.a[2], e.a[1])):
            y = strip_casts(y)
            if y.k == 'null' or (y.k == 'int' and y.a[0] == 0 and x.ty is not None and x.ty.k == 'ptr'): return strip_casts(x), e.a[0] == '=='
        return None, None
    if e.k == 'un' and e.a[0] == '!':
        c, n = null_test(e.a[1]); return c, (not n if c is not None else None)
    if e.ty is not None and e.ty.k == 'ptr' or e.k in ('ssa', 'ld'): return e, False
    return None, None

def is_base(e):
    e = strip_casts(resolve(e))
    if e.k == 'ld' and e.a[0].k == 'at' and strip_casts(e.a[0].a[1]).k == 'int' and strip_casts(e.a[0].a[1]).a[0] == 0: return True
    if e.k == 'ssa' and e.a[0].kind == 'param' and 'base' in e.a[0].var.name.lower(): return True
    return e.k == 'tparm'

SENTINELS = (-1, 2**31 - 1, -2**31)

def objkey(p):
    p = strip_casts(resolve(p))
    return p.key

def isfloat(t): return t is not None and t.k == 'float'
def isp(e):
    return e.ty is not None and e.ty.isptr or e.k in ('addr', 'decay')
def intval(e):
    while e.k == 'cast': e = e.a[1]
    if e.k == 'un' and e.a[0] == '-':
        v = intval(e.a[1]); return None if v is None else -v
    if e.k == 'bin' and e.a[0] in ('+', '-', '*'):
        x, y = intval(e.a[1]), intval(e.a[2])
        if x is not None and y is not None: return x + y if e.a[0] == '+' else x - y if e.a[0] == '-' else x * y
    return e.a[0] if e.k == 'int' else None
def add(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + v
        if r[k] == 0: del r[k]
    return r
def scale(a, c): return {k: v * c for k, v in a.items()} if c else {}

def analyse(prog, fn):
    """Two rounds: arrays that the function itself re-bases (X[i] = X[j] + base) are filled in one
    base and converted later; their contents are left unconstrained in the second round."""
    cfg = lower(prog, fn, inline=lambda f, d: not f.file.startswith('/') and f.short not in ('make0BasedIndexing', 'make1BasedIndexing'))
    promote_outparams(cfg)
    ssa(cfg)
    u = Units(prog, cfg, None); u.run()
    if u.rebased:
        # only within the function (and its callees) that re-bases the array
        reps = {}
        for n, i in u.rebased: reps.setdefault(n.find(), set()).add(i.stack)
        anyacc = {i for i, (lv, n, st) in u.acc.items() if any(st[:len(q)] == q for q in reps.get(n.find(), ()))}
        u2 = Units(prog, cfg, None); u2.anyacc = anyacc; u2.run()
        u2.keep = u
        u2.nrebased = len(reps)
        return u2
    u.nrebased = 0
    return u
