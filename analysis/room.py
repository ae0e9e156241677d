"""S17: arrays have room for what is stored in and read from them. Allocations (new[], malloc, the memory pool, arrays of
variable and of constant length, the arrays of a matrix) get a size as a term; accesses through pointers that lead to them get
a range of indices: a term in which the counters of enclosing loops run through their ranges, and the thread number through
the team. An access is judged when its index is made of what the size is made of (and constants, thread number, team size)."""
from shares import *
from typestate import cname
import shares, loops

FIELDS = {'rowptr': 1, 'diagptr': 0, 'extptr': 0, 'idiag': 0, 'diag': 0}        # room of the arrays of a matrix beyond m
def short(n): return n.split('::')[-1].split('<')[0]
def inpar(i): return any(c.kind == 'omp' and c.d == 'parallel' for c in i.ctx or ())

class RoomTerms(Terms):
    def __init__(self, cfg):
        super().__init__(cfg)
        self.point = None; self.regions = any(i.op == 'parallel' for b in cfg.order for i in b.ins)
        self.nums = {}
        self.stores = {}                # field name -> [(block, index, instruction)]
        for b in cfg.order:
            for n, i in enumerate(b.ins):
                self.nums[i] = len(self.nums)
                lv = i.lv if i.op == 'set' and not i.outs else i.dst if i.op == 'call' and not i.outs else None
                if lv is not None and lv.k == 'fld': self.stores.setdefault(lv.a[2], []).append((b, n, i, lv))
        self.vers = {}; self.keys = {}
    def at(self, e, point):
        old = self.point; self.point = point
        try: return self.of(e)
        finally: self.point = old
    def sv(self, s):
        if s in self.memo: return self.memo[s]
        old = self.point
        if s.kind == 'set' and s.d is not None and hasattr(s.d, 'block') and s.d.block is not None: self.point = (s.d.block, s.d.idx)
        elif s.block is not None: self.point = (s.block, 0)
        try: return super().sv(s)
        finally: self.point = old
    def sv_(self, s):
        if s.kind == 'callret' and self.regions and not inpar(s.d):
            n = short(cname(s.d))
            if n == 'omp_get_thread_num': return {}
            if n == 'omp_get_num_threads': return num(1)
        return super().sv_(s)
    def fldkey(self, lv, point):
        k = (id(lv), point)
        if k not in self.keys: self.keys[k] = (lv, self.at_lv(lv.a[0], point))
        return self.keys[k][1]
    def at_lv(self, lv, point):
        old = self.point; self.point = point
        try: return super().lv(lv)
        finally: self.point = old
    def reaching(self, lv, point):
        """the stores to a member that reach the point; 'entry' when the initial value does"""
        f = lv.a[2]
        if f not in self.stores: return ['entry']
        key = self.fldkey(lv, point)
        k = (f, key, point)
        if k in self.vers: return self.vers[k]
        self.vers[k] = ['?']
        mine = {}
        for b, n, i, l in self.stores[f]:
            if self.fldkey(l, (b, n)) == key: mine.setdefault(b, []).append((n, i))
        out = []; seen = set(); st = [(point[0], point[1])]
        while st:
            b, n = st.pop()
            hit = [x for x in mine.get(b, ()) if x[0] < n]
            if hit: 
                if hit[-1][1] not in out: out.append(hit[-1][1])
                continue
            if b is self.cfg.entry and 'entry' not in out: out.append('entry')
            for p in b.preds:
                if p not in seen: seen.add(p); st.append((p, 10**6))
        self.vers[k] = out
        return out
    def of_(self, e):
        if e.k == 'ld' and e.a[0].k == 'fld' and self.point is not None:
            lv = e.a[0]; r = self.reaching(lv, self.point)
            if r == ['entry']: return atom(self.lv(lv))
            if len(r) == 1 and r[0] != '?' and r[0].op == 'set' and (e.ty is None or e.ty.isint): return self.at(r[0].e, (r[0].block, r[0].idx))
            a = self.lv(lv)
            return atom(('ver', tuple(sorted(str(x) if isinstance(x, str) else '%d' % self.nums[x] for x in r)), a))
        return super().of_(e)

def elem(e):
    return e.ty.p.size if e.ty is not None and e.ty.isptr and e.ty.p is not None and e.ty.p.k != 'void' else None

class Room:
    def __init__(self, cfg):
        self.cfg = cfg; self.t = RoomTerms(cfg)
        self.decls = {}
        for b in cfg.order:
            for n, i in enumerate(b.ins):
                if i.op == 'decl' and i.args: self.decls[i.lv.a[0]] = (i, (b, n))
        self.ps = None
    # where a pointer leads: list of (root, offset, point)
    def peel(self, e, point, depth=40):
        t = self.t
        if depth <= 0: return None
        if e.k == 'cast':
            a, b = elem(e), elem(e.a[1])
            if a and b and a != b: return None
            return self.peel(e.a[1], point, depth - 1)
        if e.k == 'null' or e.k == 'int' and e.a[0] == 0: return []
        if e.k == 'ssa':
            s = e.a[0]; d = definition(s)
            if d is not None: return self.peel(d, (s.d.block, s.d.idx) if getattr(s.d, 'block', None) is not None else (s.block, 0), depth - 1)
            if s.kind == 'callret': return [(('call', s.d), {}, (s.d.block, s.d.idx))]
            if s.kind == 'phi':
                b, p = t.phiblock.get(s, (None, None))
                if b is None or b in t.heads: return None
                out = []
                for q, o in p.ops.items():
                    r = self.peel(E('ssa', (o,), e.ty), (q, 10**6), depth - 5)
                    if r is None: return None
                    out += [x for x in r if x not in out]
                return out
            return None
        if e.k == 'bin' and e.a[0] in ('+', '-'):
            r = self.peel(e.a[1], point, depth - 1)
            if r is None: return None
            o = t.at(e.a[2], point)
            return [(a, add(b, o, 1 if e.a[0] == '+' else -1), c) for a, b, c in r]
        if e.k == 'cond':
            r = self.peel(e.a[1], point, depth - 1); s = self.peel(e.a[2], point, depth - 1)
            return None if r is None or s is None else r + s
        if e.k == 'addr' and e.a[0].k == 'at':
            x = e.a[0]
            r = self.peel(x.a[0], point, depth - 1)
            return None if r is None else [(a, add(b, t.at(x.a[1], point)), c) for a, b, c in r]
        if e.k == 'decay' and e.a[0].k == 'var': return [(('var', e.a[0].a[0], 0), {}, point)]
        if e.k == 'decay' and e.a[0].k == 'at':
            x = e.a[0]
            if strip_casts(x.a[0]).k == 'decay' and strip_casts(x.a[0]).a[0].k == 'var': return [(('var', strip_casts(x.a[0]).a[0].a[0], 1), {}, point)]
            return None
        if e.k == 'ld' and e.a[0].k == 'fld':
            lv = e.a[0]; out = []
            for s in t.reaching(lv, point):
                if s == '?': return None
                if s == 'entry': r = [(('fld', lv, point), {}, point)]
                elif s.op == 'set': r = self.peel(s.e, (s.block, s.idx), depth - 5)
                else: r = [(('call', s), {}, (s.block, s.idx))]
                if r is None: return None
                out += [x for x in r if x not in out]
            return out
        return None
    def size(self, root, es):
        """room in elements, as a term; None if unknown"""
        t = self.t
        if root[0] == 'call':
            i = root[1]; n = short(cname(i)); pt = (i.block, i.idx)
            if n.startswith('operator new[]'): return t.at(i.args[0], pt) if i.args and i.ty is not None and i.ty.size == es else None
            k = {'malloc': 0, '_mm_malloc': 0, 'malloc_huge_pages': 0, 'allocate': 0, 'allocateFront': 0}.get(n)
            if n == 'calloc': b = mul(t.at(i.args[0], pt), t.at(i.args[1], pt))
            elif k is not None and i.args: b = t.at(i.args[k], pt)
            else: return None
            if n in ('allocate', 'allocateFront') and '<' in cname(i): return b
            if es is None or any(c % es for c in b.values()): return None
            return {m: c//es for m, c in b.items()}
        if root[0] == 'var':
            v, d = root[1], root[2]
            if v in self.decls:
                i, pt = self.decls[v]
                return t.at(i.args[d], pt) if d < len(i.args) else None
            ty = v.ty
            for _ in range(d): ty = ty.p if ty is not None else None
            return num(ty.n) if ty is not None and ty.k == 'array' and ty.n and (ty.p is None or ty.p.size == es) else None
        if root[0] == 'fld':
            lv, pt = root[1], root[2]
            if lv.a[1] not in ('SpMP::CSR', 'CSR') or lv.a[2] not in FIELDS: return None
            b = E('fld', (lv.a[0], lv.a[1], 'm'), None)
            return add(t.at(E('ld', (b,)), pt), num(FIELDS[lv.a[2]]))
        return None
    def accesses(self):
        """(block, index, at-expression) of all array accesses"""
        def loads(e, out, addr=False):
            if e.k == 'ld': lvs(e.a[0], out); return
            if e.k in ('addr', 'decay'):
                x = e.a[0]
                while x.k in ('fld',): x = x.a[0]
                if x.k == 'at': loads(x.a[0], out); loads(x.a[1], out)
                return
            for x in e.kids(): loads(x, out)
        def lvs(x, out):
            while x.k == 'fld': x = x.a[0]
            if x.k == 'at': out.append(x); loads(x.a[0], out); loads(x.a[1], out)
        for b in self.cfg.order:
            for n, i in enumerate(b.ins):
                out = []
                if i.lv is not None and i.op == 'set': lvs(i.lv, out)
                if i.dst is not None: lvs(i.dst, out)
                for e in ([i.e] if i.e is not None else []) + list(i.args or ()) + ([i.this] if i.this is not None else []): loads(e, out)
                for x in out: yield b, n, x, i
            if b.term and b.term[0] in ('br', 'ret') and b.term[1] is not None:
                out = []; loads(b.term[1], out)
                for x in out: yield b, len(b.ins), x, None
    def blocks(self):
        """(block, index, pointer, length term, instruction) of memory operations"""
        for b in self.cfg.order:
            for n, i in enumerate(b.ins):
                if i.op != 'call': continue
                nm = short(cname(i))
                if nm in ('memcpy', 'memmove', 'memset') and len(i.args) >= 3:
                    ln = self.t.at(i.args[2], (b, n))
                    for p in i.args[:2 if nm != 'memset' else 1]:
                        s = pointee(p)
                        if s and not any(c % s for c in ln.values()): yield b, n, p, {m: c//s for m, c in ln.items()}, i
                elif nm in ('fread', 'fwrite') and len(i.args) >= 4:
                    s = pointee(i.args[0]); z = const(self.t.at(i.args[1], (b, n)))
                    if s and z == s: yield b, n, i.args[0], self.t.at(i.args[2], (b, n)), i
    def guards(self, b):
        """conditions that hold where b runs: (expression, truth, point)"""
        d = b; out = []
        while True:
            p = self.cfg.idom.get(d)
            if p is None or p is d: break
            if p.term and p.term[0] == 'br' and p.term[1].k != 'ompcond' and not any(p in body and b not in body for body in self.t.heads.values()):      # not the end of an earlier loop
                for s, v in ((p.term[2], True), (p.term[3], False)):
                    if len(s.preds) == 1 and dominates(self.cfg.idom, s, b) and p.term[2] is not p.term[3]: out.append((p.term[1], v, (p, len(p.ins))))
            d = p
        return out
    def parts(self):
        if self.ps is None:
            self.ps = {}
            t = self.t
            for C in counted(self.cfg):
                if abs(C.step) != 1: continue
                t.point = (C.head, len(C.head.ins))
                s = ('phi', C.sv.uid); t.sv(C.sv)
                d = add(t.of(C.l), t.of(C.r), -1); k = d.get((s,))
                q = next((q for q in C.sv.block.preds if q not in C.body), None) if C.sv.block is not None else None
                if k in (1, -1) and sum(1 for m in d if s in m) == 1:
                    del d[(s,)]; bound = d if k == -1 else add({}, d, -1)
                    lo = t.at(C.loe, (q, 10**6)) if q is not None else t.of(C.loe)
                    if not dep(K(lo), s) and not dep(K(bound), s):
                        if C.step > 0: hi = add(bound, num(1)) if C.op == '<=' else bound
                        else: hi = add(lo, num(1)); lo = add(bound, num(1)) if C.op in ('>', '!=') else bound
                        self.ps[s] = (lo, hi, C)
                t.point = None
        return self.ps

def leaves(k, out=None):
    out = set() if out is None else out
    if isinstance(k, dict): k = K(k)
    for m, c in k:
        for a in m: leaf(a, out)
    return out
def leaf(a, out):
    n = a[0]
    if n in ('T', 'N'): return
    if n in ('min', 'max'):
        for x in a[1]: leaves(x, out)
    elif n == 'mod': leaves(a[2], out)
    elif n == 'div' or n[:2] == 'op': leaves(a[1], out); leaves(a[2], out)
    elif n == 'ld': leaves(a[1], out)
    elif n == 'lb': leaves(a[3], out)           # anything up to its length
    elif n == 'cond': cleaves(a[1], out); leaves(a[2], out); leaves(a[3], out)
    else: out.add(a)
def cleaves(c, out):
    if c[0] == 'cmp': leaves(c[2], out)
    elif c[0] == 'not': cleaves(c[1], out)
    elif c[0] in ('and', 'or'): cleaves(c[1], out); cleaves(c[2], out)
    else: leaves(c[1], out)

LIMIT = 300
ROUNDS = 8
def judge(room, size, off, ln, b, point, rounds=ROUNDS, end=False, free=()):
    """('ok'|'alarm'|'undecided', text) for an access of ln elements from off in room for size elements"""
    t = room.t; ps = room.parts()
    need = leaves(size) | set(free)        # free: other values that may be anything
    # counters of the loops around the access
    mine = {s: x for s, x in ps.items() if b in x[2].body}
    order = []
    def visit(s):
        if s in order: return True
        if s not in mine: return False
        lo, hi, C = mine[s]
        for a in leaves(lo) | leaves(hi):
            if a in ps and a != s and not visit(a): return False
        order.append(s); return True
    def terms(p):
        for _ in range(6):
            ss = [s for s in (m[0] for m in p if len(m) == 1) if s in mine]
            ss += [a for m in p for a in m if a in mine and a not in ss]
            if not ss: return p
            for s in ss: p = subst1(p, s, add(mine[s][0], atom(('k', s))))
        return p
    idx = terms(off)
    lv = leaves(idx) | leaves(ln)
    used = set()
    for a in sorted(leaves(off) | leaves(ln), key=repr):
        if a in ps:
            if a not in mine: return 'undecided', 'counter after its loop'
            if not visit(a): return 'undecided', 'range of a loop around it'
            used.add(a)
    known = set(need)
    bad = set()
    for a in lv:
        if a[0] == 'k' or a in mine: continue
        if a not in known: bad.add(a)
    for s in list(order):
        lo, hi, C = mine[s]
        d = terms(add(hi, lo, -1))
        for a in leaves(d):
            if a[0] != 'k' and a not in mine and a not in known: bad.add(a)
    why = 'depends on %s' % ', '.join(sorted(str(t.names.get(a, a[0])) for a in bad)) if bad else None
    gs = []; loose = False
    for e, v, pt in room.guards(b):
        old = t.point; t.point = pt
        c = t.cond(e); t.point = old
        ls = cleaves_(c)
        ev = True
        for a in ls:
            if a in ps:
                if a in mine and visit(a): continue
                ev = False
            elif a not in known and a not in leaves(off): ev = False
        if ev: gs.append((c, v))
        elif ls & (leaves(off) | used) - {a for a in ls if a[0] == 'v' and False} or mentionsT(c, off):
            why = why or 'only under a condition'
        elif any(a not in known and a[0] != 'v' and a[0][:3] != 'ld.' for a in ls): loose = True
    hasT = dep(K(idx), T) or dep(K(ln), T) or any(dep(c, T) for c, x in gs) or any(dep(K(y), T) for s in order for y in mine[s][:2])
    cl = set(used)
    while True:
        more = {a for s in cl for z in mine[s][:2] for a in leaves(z) if a in mine} - cl
        if not more: break
        cl |= more
    tried = 0; small = False
    for r in range(rounds):
        v = Values(t.ptrs, r)
        for n in (1, 2, 3, 5, 8) if hasT or dep(K(size), N) or dep(K(off), N) else (2,):
            for T_ in sorted({0, 1, n//2, n - 1} & set(range(n))) if hasT else (0,):
                try:
                    count = [0]
                    v.point(T_, n)
                    z = v.term(size)
                    def run(k, env):
                        nonlocal tried
                        if count[0] > LIMIT: return None
                        if k == len(order):
                            count[0] += 1
                            v.point(T_, n, dict(env))
                            for c, x in gs:
                                if v.cond(c) != x: return None
                            tried += 1
                            i = v.term(off); l = v.term(ln)
                            if (l > 0 or end) and (i < 0 or i + l > z): return (n, T_, i, l, z)
                            return None
                        s = order[k]; lo, hi, C = mine[s]
                        v.point(T_, n, dict(env)); a, e = v.term(lo), v.term(hi)
                        v.point(T_, n, dict(env))
                        xs = range(a, e)
                        if len(xs) > 5: xs = [xs[0], xs[1], xs[len(xs)//2], xs[-2], xs[-1]]
                        for x in xs:
                            env[s] = x
                            y = run(k + 1, env)
                            if y: return y
                        env.pop(s, None)
                        return None
                    y = run(0, {})
                except Undecided: continue
                if y:
                    if not why and loose and (y[4] == 0 or const(off) is not None): small = True; continue
                    if not why and len(tables([off, idx, size, ln] + [z for s in cl for z in mine[s][:2]], t.ptrs)) > 1: why = 'relation of two tables'
                    if not why and y[2] < 0 and searched(K(idx)): why = 'search in a table'
                    return ('undecided', why) if why else ('alarm', y)
    if why and bad: return 'undecided', why
    if small: return 'undecided', 'perhaps never with so small a size'
    return ('ok', tried) if tried else ('undecided', 'no values tried')
def cleaves_(c):
    out = set(); cleaves(c, out); return out
def mentionsT(c, off): return False
def tables(ks, ptrs):
    """the tables that terms load from, by the pointers in the addresses"""
    out = set()
    def go(k):
        if isinstance(k, dict): k = K(k)
        if isinstance(k, (tuple, frozenset)):
            if k and isinstance(k, tuple) and k[0] == 'ld' and k not in ptrs: out.add(frozenset(a for a in leaves(k[1]) if a in ptrs) or k[1])
            for x in k: go(x)
    for k in ks: go(k)
    return out
def searched(k):
    if isinstance(k, (tuple, frozenset)): return (k and isinstance(k, tuple) and k[0] == 'lb') or any(searched(y) for y in k)
    return False


def slices(room):
    """pointers to a part of an array for each thread: (block, index, instruction, size, stride, verdict, text)"""
    t = room.t
    for b in room.cfg.order:
        for n, i in enumerate(b.ins):
            if i.op != 'set' or i.e is None or not (i.e.ty is not None and i.e.ty.isptr): continue
            rs = room.peel(i.e, (b, n))
            for root, o, pt in rs or ():
                ms = [m for m in o if T in m]
                if not ms or any(m.count(T) != 1 for m in ms) or any(dep(a, T) for m in o for a in m if a != T): continue
                stride = {}
                for m in ms: l = list(m); l.remove(T); stride = add(stride, {tuple(l): o[m]})
                rest = {m: c for m, c in o.items() if m not in ms}
                if dep(K(stride), N) or dep(K(rest), N): continue
                z = room.size(root, elem(i.e))
                if z is None: continue
                gl = set()
                for e, v, p in room.guards(b):
                    old = t.point; t.point = p; gl |= cleaves_(t.cond(e)); t.point = old
                free = {a for a in leaves(stride) if a[0] == 'phi' and a not in room.parts() and a not in gl}
                v, x = judge(room, z, add(rest, mul(atom(N), stride)), {}, b, (b, n), end=True, free=free)
                yield b, n, i, z, stride, v, x
def matrices(room):
    """arrays given to a matrix: (block, index, instruction, member, size, needed, verdict, text); it has its final number of rows where the operation ends"""
    t = room.t; given = {}
    ends = [b for b in room.cfg.order if b.term and b.term[0] == 'ret']
    if len(ends) != 1: return
    end = (ends[0], 10**6)
    for f in list(FIELDS) + ['colidx', 'values']:
        for b, n, i, lv in t.stores.get(f, ()):
            if i.op != 'set' or lv.a[1] not in ('SpMP::CSR', 'CSR'): continue
            rs = room.peel(i.e, (b, n))
            if rs is None or len(rs) != 1 or rs[0][0][0] != 'call' or rs[0][1]: continue
            z = room.size(rs[0][0], elem(i.e))
            if z is None: continue
            given.setdefault(t.fldkey(lv, (b, n)), []).append((f, b, n, i, lv, z))
    for key, xs in given.items():
        for f, b, n, i, lv, z in xs:
            if f in FIELDS:
                m = t.at(E('ld', (E('fld', (lv.a[0], lv.a[1], 'm'), None),)), end)
                need = add(m, num(FIELDS[f]))
            elif f == 'values':
                cs = [x for x in xs if x[0] == 'colidx']
                if len(cs) != 1: continue
                need = cs[0][5]
            else: continue
            v, x = judge(room, z, {}, need, b, (b, n), free={a for a in leaves(need) if a[0] in ('ld.m', 'ld.n')})
            yield b, n, i, f, z, need, v, x
def examine(self):
    R = self
    def one(b, n, p, off, ln, es, i):
        rs = R.peel(p, (b, n))
        if rs is None or not rs: return
        for root, o, pt in rs:
            z = R.size(root, es)
            if z is None: continue
            v, x = judge(R, z, add(o, off), ln, b, (b, n))
            yield root, z, add(o, off), v, x
    for b, n, x, i in R.accesses():
        es = elem(x.a[0])
        for y in one(b, n, x.a[0], R.t.at(x.a[1], (b, n)), num(1), es, i): yield (b, n, x, i) + y
    for b, n, p, ln, i in R.blocks():
        for y in one(b, n, p, {}, ln, pointee(p), i): yield (b, n, None, i) + y
Room.examine = examine; Room.slices = slices; Room.matrices = matrices
