"""S14: the parts of a range that the threads of a team take make up the whole range. The bounds of each thread's part
are turned into terms over the thread number T and the number of threads N (helpers are inlined, joins become choices).
The parts must neither overlap nor leave gaps, and together they must be the range that a single thread would take.
Terms that are not identical after normalisation are told apart by giving their atoms values."""
from core import *
import zlib, api, random, bisect
from fractions import Fraction
import loops
from loops import counted, natural, dead

T = ('T',); N = ('N',)
def K(p): return tuple(sorted(((m, c) for m, c in p.items()), key=repr))
def D(k): return dict(k)
def num(c): return {(): c} if c else {}
def atom(a): return {(a,): 1}
def add(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s*v
        if r[k] == 0: del r[k]
    return r
def mul(a, b):
    r = {}
    for k, v in a.items():
        for l, w in b.items():
            m = tuple(sorted(k + l, key=repr)); r[m] = r.get(m, 0) + v*w
            if r[m] == 0: del r[m]
    return r
def const(p): return p.get((), 0) if set(p) <= {()} else None
def sole(p):
    """the atom if the term is just that"""
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) == 1 and c == 1: return m[0]
    return None
OPAQUE = ('phi', 'ret', 'any')
def atoms(p):
    for m in p:
        for a in m:
            yield a
            for x in a[1:]:
                if isinstance(x, frozenset):
                    for y in x: yield from atoms(D(y))
                elif isinstance(x, tuple) and a[0] not in OPAQUE and x and isinstance(x[0], tuple): yield from atoms(D(x))
def has(p, *kinds): return any(a[0] in kinds for a in atoms(p))
def nonneg(p): return all(c >= 0 and all(a[0] in ('T', 'N', 'div', 't', 's', 'mod', 'lb') for a in m) for m, c in p.items())
def ge(p):
    """is the term at least 0 for every T >= 0, N >= 1?"""
    if nonneg(p): return True
    if any(a == N for m in p for a in m): return nonneg(subst1(p, N, add(num(1), atom(('s',)))))
    return False
def subst1(p, a, q):
    r = {}
    for m, c in p.items():
        x = num(c)
        for y in m: x = mul(x, q if y == a else atom(y))
        r = add(r, x)
    return r
def mk_div(a, b):
    c, d = const(a), const(b)
    if d == 1: return a
    if a == {}: return {}
    if c is not None and d is not None and d > 0 and c >= 0: return num(c//d)
    s = sole(b)
    if s is not None and all(s in m for m in a):             # (x * N) / N
        r = {}
        for m, v in a.items():
            l = list(m); l.remove(s); r[tuple(l)] = r.get(tuple(l), 0) + v
        return r
    return atom(('div', K(a), K(b)))
def mk_min(ps, kind='min'):
    out = []
    st = list(ps)
    while st:
        p = st.pop()
        ms = [m for m, c in p.items() if len(m) == 1 and m[0][0] == kind and c == 1]
        if len(ms) == 1:
            r = dict(p); del r[ms[0]]
            st += [add(D(x), r) for x in ms[0][0][1]]
            continue
        out.append(p)
    ks = []
    for p in out:
        if K(p) not in ks: ks.append(K(p))
    drop = set()
    for x in ks:
        for y in ks:
            if x is y or y in drop or x in drop: continue
            d = add(D(x), D(y), -1)
            if kind == 'max': d = add({}, d, -1)
            if ge(d) or atleast(D(x), D(y), kind): drop.add(x)
    ks = [k for k in ks if k not in drop]
    if len(ks) == 1: return D(ks[0])
    return atom((kind, frozenset(ks)))
def atleast(x, y, kind):
    """x >= y, using N*ceil(q/N) >= q"""
    if kind == 'max': x, y = y, x; 
    if kind == 'max': return False
    for m, c in x.items():
        if c == 1 and len(m) == 2 and N in m:
            a = m[0] if m[1] == N else m[1]
            if a[0] == 'div' and D(a[2]) == atom(N):
                q = add(add(D(a[1]), atom(N), -1), num(1))
                low = dict(x); del low[m]; low = add(low, q)
                if ge(add(low, y, -1)): return True
    if c_mod(x, y): return True
    return False
def c_mod(x, y):
    a = sole(y)
    return a is not None and a[0] == 'mod' and D(a[2]) == x      # n % N <= N
def mk_cmp(op, a, b): return ('cmp', op, K(add(a, b, -1)))
def mk_cond(c, a, b):
    if a == b: return a
    return atom(('cond', c, K(a), K(b)))
def merge(p):
    """min(t, r) + (t < r) is min(t + 1, r);  N*(n/N) + n%N is n"""
    for m in list(p):
        if len(m) == 1 and m[0][0] == 'cond' and p.get(m) == 1 and K(num(1)) == m[0][2] and m[0][3] == () and m[0][1][0] == 'cmp' and m[0][1][1] == '<':
            d = D(m[0][1][2])
            for l in list(p):
                if len(l) == 1 and l[0][0] == 'min' and p.get(l) == 1 and len(l[0][1]) == 2:
                    x, y = (D(z) for z in l[0][1])
                    for u, v in ((x, y), (y, x)):
                        if add(u, v, -1) == d:
                            r = dict(p); del r[m]; del r[l]
                            return add(r, mk_min([add(u, num(1)), v]))
    for m in list(p):
        if len(m) == 2 and N in m and p.get(m) == 1:
            a = m[0] if m[1] == N else m[1]
            if a[0] == 'div' and D(a[2]) == atom(N) and p.get((('mod', a[1], a[2]),)) == 1:
                r = dict(p); del r[m]; del r[(('mod', a[1], a[2]),)]
                return add(r, D(a[1]))
    return p

class Terms:
    def __init__(self, cfg):
        self.cfg = cfg; self.memo = {}; self.ptrs = set(); self.where = {}; self.sets = {}; self.svs = {}; self.names = {}; self.heads = natural(cfg); self.phiblock = {p.sv: (b, p) for b in cfg.order for p in b.phis}
    def of(self, e):
        r = self.of_(e)
        if e.ty is not None and e.ty.isptr:
            a = sole(r)
            if a is not None: self.ptrs.add(a)
        return r
    def of_(self, e):
        if e.k == 'int': return num(e.a[0])
        if e.k == 'sizeof' and isinstance(e.a[0], int): return num(e.a[0])
        if e.k == 'tparm': return self.of(e.a[1]) if isinstance(e.a[1], E) else num(e.a[1]) if isinstance(e.a[1], int) else atom(('any', e.a[0]))
        if e.k == 'cast': return self.of(e.a[1])
        if e.k == 'ssa': return self.sv(e.a[0])
        if e.k == 'null': return {}
        if e.k == 'un' and e.a[0] == '-': return add({}, self.of(e.a[1]), -1)
        if e.k == 'bin':
            op = e.a[0]
            if op in ('+', '-'): return merge(add(self.of(e.a[1]), self.of(e.a[2]), 1 if op == '+' else -1))
            if op == '*': return mul(self.of(e.a[1]), self.of(e.a[2]))
            if op == '/': return mk_div(self.of(e.a[1]), self.of(e.a[2]))
            if op == '%': return atom(('mod', K(self.of(e.a[1])), K(self.of(e.a[2]))))
            if op in ('min', 'max'): return mk_min([self.of(e.a[1]), self.of(e.a[2])], op)
            return atom(('op' + op, K(self.of(e.a[1])), K(self.of(e.a[2]))))
        if e.k == 'cond':
            return self.choice(self.cond(e.a[0]), self.of(e.a[1]), self.of(e.a[2]))
        if e.k == 'ld':
            return atom(self.lv(e.a[0]))
        if e.k in ('addr', 'decay'):
            x = e.a[0]
            if x.k == 'at': return add(self.of(x.a[0]), self.of(x.a[1]))
            return atom(('&',) + self.lv(x)[1:] if self.lv(x)[0] != 'v' else ('&v', self.lv(x)[1]))
        return atom(('any', repr(e.key)))
    def lv(self, x):
        if x.k == 'var': return ('v', x.a[0].uid)
        if x.k == 'at': return ('ld', K(add(self.of(x.a[0]), self.of(x.a[1]))))
        if x.k == 'fld':
            b = self.lv(x.a[0])
            return ('ld.' + x.a[2], K(atom(b)))
        return ('any', repr(x.key))
    def choice(self, c, a, b):
        """a < b ? a : b"""
        if c[0] == 'cmp' and c[1] in ('<', '<=', '>', '>='):
            d = D(c[2])
            if d == add(a, b, -1): return mk_min([a, b], 'min' if c[1] in ('<', '<=') else 'max')
            if d == add(b, a, -1): return mk_min([a, b], 'max' if c[1] in ('<', '<=') else 'min')
        return mk_cond(c, a, b)
    def cond(self, e):
        e = strip_casts(e)
        if e.k == 'ssa' and definition(e.a[0]) is not None: return self.cond(definition(e.a[0]))
        if e.k == 'un' and e.a[0] == '!': return ('not', self.cond(e.a[1]))
        if e.k == 'bin' and e.a[0] in ('&&', '||'): return ('and' if e.a[0] == '&&' else 'or', self.cond(e.a[1]), self.cond(e.a[2]))
        if e.k == 'bin' and e.a[0] in ('==', '!=', '<', '<=', '>', '>='): return mk_cmp(e.a[0], self.of(e.a[1]), self.of(e.a[2]))
        return ('other', K(self.of(e)))
    def sv(self, s):
        if s not in self.memo:
            self.memo[s] = atom(('phi', s.uid))              # for cycles
            self.memo[s] = self.sv_(s)
            a = sole(self.memo[s])
            if a is not None and a[0] in OPAQUE + ('v',) and a[-1] == s.uid: self.where[a] = s.block if s.kind != 'callret' else s.d.block; self.names[a] = s.var.name; self.svs[a] = s
            if a is not None and s.var.ty is not None and s.var.ty.isptr: self.ptrs.add(a)
        return self.memo[s]
    def sv_(self, s):
        d = definition(s)
        if d is not None: return self.of(d)
        if s.kind == 'phi':
            b, p = self.phiblock.get(s, (None, None))
            if b is None or b in self.heads: return atom(('phi', s.uid))
            r = self.gate(b, p.ops)
            return r if r is not None else atom(('phi', s.uid))
        if s.kind == 'param': return atom(('v', s.uid))
        if s.kind == 'callret':
            n = (s.d.x or {}).get('name') or s.d.callee or '?'
            n = n.split('::')[-1].split('<')[0]
            if n == 'omp_get_thread_num': return atom(T)
            if n in ('omp_get_num_threads', 'omp_get_max_threads'): return atom(N)
            if n in ('lower_bound', 'upper_bound') and len(s.d.args) >= 3:
                a, z, x = (self.of(y) for y in s.d.args[:3])
                if strip_casts(s.d.args[2]).k == 'addr': x = self.value(s.d.args[2], s.d)
                return add(a, atom(('lb', n, K(a), K(add(z, a, -1)), K(x))))
            return atom(('ret', s.uid))
        return atom(('v', s.uid))
    def value(self, e, ins):
        e = strip_casts(e)
        if e.k == 'addr' and e.a[0].k == 'var':
            # the last value given to the temporary before the call
            v = e.a[0].a[0]; b = ins.block
            for i in reversed(b.ins[:ins.idx]):
                if i.op == 'set' and i.lv.k == 'var' and i.lv.a[0] is v: return self.of(i.e)
            if v not in self.sets: self.sets[v] = [i for b in self.cfg.order for i in b.ins if i.op == 'set' and i.lv.k == 'var' and i.lv.a[0] is v]
            if len(self.sets[v]) == 1 and dominates(self.cfg.idom, self.sets[v][0].block, b): return self.of(self.sets[v][0].e)
            return atom(('any', v.uid))
        return self.of(E('ld', (e.a[0],))) if e.k == 'addr' else self.of(e)
    def gate(self, b, ops, d=None):
        """the value at a join as a choice"""
        vals = {K(self.sv(o)) for o in ops.values()}
        if len(vals) == 1: return D(vals.pop())
        d = d or self.cfg.idom.get(b)
        for _ in range(40):
            if d is None or not d.term or d.term[0] != 'br' or d.term[1].k == 'ompcond': return None
            t, f = d.term[2], d.term[3]
            def side(q):
                if q is d: return 't' if t is b else 'f'
                if dominates(self.cfg.idom, t, q) and len(t.preds) == 1: return 't'
                if dominates(self.cfg.idom, f, q) and len(f.preds) == 1: return 'f'
            sd = {q: side(q) for q in ops}
            if None in sd.values(): return None
            tv = {q: o for q, o in ops.items() if sd[q] == 't'}; fv = {q: o for q, o in ops.items() if sd[q] == 'f'}
            if not tv or not fv: return None
            def val(x, start):
                ks = {K(self.sv(o)) for o in x.values()}
                if len(ks) == 1: return D(ks.pop())
                # the branch within the side
                n = start
                for _ in range(20):
                    if n.term and n.term[0] == 'br': return self.gate(b, x, n)
                    if len(n.succs) != 1: return None
                    n = n.succs[0]
            tt, ff = val(tv, t), val(fv, f)
            if tt is None or ff is None: return None
            return self.choice(self.cond(d.term[1]), tt, ff)
        return None

REG = 10**7
class Undecided(Exception): pass
class Values:
    """gives the atoms of terms values: arrays hold nonnegative numbers in increasing order"""
    def __init__(self, ptrs, seed): self.ptrs = ptrs; self.seed = seed; self.memo = {}; self.env = {}; self.exact = False
    def h(self, *k): return zlib.crc32(repr((self.seed,) + k).encode())
    def point(self, T_, N_, env=None): self.T = T_; self.N = N_; self.env = env or {}; self.memo = {}
    def cell(self, addr):
        r, o = divmod(addr, REG)
        if o > 5000: raise Undecided
        a = self.table(r)
        while len(a) <= o: a.append(a[-1] + self.gens[self.seed, r].choice((0, 0, 1, 1, 1, 2, 3)))
        return a[o]
    arrs = {}; gens = {}
    def table(self, r):
        k = (self.seed, r)
        if k not in self.arrs: self.gens[k] = random.Random('%d %d' % k); self.arrs[k] = [self.gens[k].randrange(2)]
        return self.arrs[k]
    def term(self, k):
        if not isinstance(k, tuple): k = K(k)
        if k in self.memo: return self.memo[k]
        r = 0
        for m, c in k:
            for a in m: c *= self.atom(a)
            r += c
        self.memo[k] = r
        return r
    def cond(self, c):
        if c[0] == 'cmp':
            v = self.term(c[2])
            return {'<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0, '==': v == 0, '!=': v != 0}[c[1]]
        if c[0] == 'not': return not self.cond(c[1])
        if c[0] == 'and': return self.cond(c[1]) and self.cond(c[2])
        if c[0] == 'or': return self.cond(c[1]) or self.cond(c[2])
        return self.term(c[1]) != 0
    def atom(self, a):
        if a in self.env: return self.env[a]
        n = a[0]
        if a == T: return self.T
        if a == N: return self.N
        if n in ('min', 'max'): return (min if n == 'min' else max)(self.term(x) for x in a[1])
        if n in ('div', 'mod'):
            x, y = self.term(a[1]), self.term(a[2])
            if y == 0: raise Undecided
            if self.exact and n == 'div' and (self.exact == 2 or not dep(a[2], N)): return Fraction(x)/y
            q = abs(x)//abs(y)*(1 if (x < 0) == (y < 0) else -1)
            return q if n == 'div' else x - q*y
        if n == 'cond': return self.term(a[2] if self.cond(a[1]) else a[3])
        if n == 'lb':
            base, ln, key = self.term(a[2]), self.term(a[3]), self.term(a[4])
            if ln < 0: return 0
            if ln > 5000: raise Undecided
            if ln == 0: return 0
            self.cell(base + ln - 1); r, o = divmod(base, REG)
            return (bisect.bisect_left if a[1] == 'lower_bound' else bisect.bisect_right)(self.table(r), key, o, o + ln) - o
        if n[:2] == 'op':
            x, y = self.term(a[1]), self.term(a[2])
            if n in ('op<<', 'op>>') and not 0 <= y < 20: raise Undecided
            if n[2:] in ('<<', '>>', '&', '|', '^'): return {'<<': lambda: x << y, '>>': lambda: x >> y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y}[n[2:]]()
            if n[2:] in ('==', '!=', '<', '<=', '>', '>='): return int(self.cond(('cmp', n[2:], K(num(x - y)))))
        if n == 'ld' and a not in self.ptrs: return self.cell(self.term(a[1]))
        args = tuple(self.term(x) if isinstance(x, tuple) and x and isinstance(x[0], tuple) and x[0] and isinstance(x[0][0], tuple) else x for x in a[1:])
        if a in self.ptrs or n[0] == '&': return REG*(1 + self.h(n, args) % 10**6)
        return self.h(n, args) % (13 if n != 'ret' else 7) * (1 if self.seed % 8 else 97)

def dep(x, a):
    """does the term mention the atom?"""
    if x == a: return True
    if isinstance(x, dict): return any(dep(m, a) for m in x)
    if isinstance(x, (tuple, frozenset)):
        if x and isinstance(x, tuple) and x[0] in OPAQUE: return False
        return any(dep(y, a) for y in x)
    return False
def opaque(x, out):
    if isinstance(x, dict): x = K(x)
    if isinstance(x, (tuple, frozenset)):
        if x and isinstance(x, tuple) and x[0] in OPAQUE + ('v',): out.add(x); return out
        for y in x: opaque(y, out)
    return out

def inside(cfg):
    """blocks within a parallel region (instructions up to the region's end), or all if the function has none"""
    par = {b: {k for k, i in enumerate(b.ins) if i.op == 'parallel'} for b in cfg.order}
    if not any(par.values()): return set(cfg.order)
    seen = set(); st = []
    for b, ks in par.items():
        if ks:
            if any(i.op == 'endparallel' for i in b.ins[max(ks):]): continue
            st += b.succs
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b)
        if any(i.op == 'endparallel' for i in b.ins): continue
        st += b.succs
    return seen

def joined(ivs):
    """the parts as one interval; None if they overlap or leave a gap"""
    ivs = sorted(i for i in ivs if i[0] < i[1])
    if not ivs: return (0, 0), None
    for (a, b), (c, d) in zip(ivs, ivs[1:]):
        if b != c: return None, (a, b, c, d)
    return (ivs[0][0], ivs[-1][1]), None

class Part:
    """one place where each thread works on a part of a range"""
    def __init__(self, kind, loc, lo, hi, C=None): self.kind = kind; self.loc = loc; self.lo = lo; self.hi = hi; self.C = C

def parts(cfg, t):
    out = []
    for C in counted(cfg):
        s = ('phi', C.sv.uid)
        d = add(t.of(C.l), t.of(C.r), -1)
        k = d.get((s,))
        if k not in (1, -1) or sum(1 for m in d if s in m) != 1 or abs(C.step) != 1: continue
        del d[(s,)]
        bound = d if k == -1 else add({}, d, -1)
        lo = t.of(C.loe)
        if dep(K(lo), s) or dep(K(bound), s): continue
        if C.step > 0: hi = add(bound, num(1)) if C.op == '<=' else bound
        else:
            hi = add(lo, num(1)); lo = add(bound, num(1)) if C.op in ('>', '!=') else bound
        out.append(Part('loop', C.head, lo, hi, C))
    for b in cfg.order:
        for i in b.ins:
            if i.op != 'call' or (i.callee or (i.x or {}).get('name')) is None: continue
            n = ((i.x or {}).get('name') or i.callee).split('::')[-1]
            if n not in ('memcpy', 'memset', 'memmove') or len(i.args) < 3: continue
            size = pointee(i.args[0]); ln = t.of(i.args[2])
            if not size or any(c % size for c in ln.values()): continue
            a = t.of(i.args[0])
            C = Place(); C.head = b; C.body = {b}; C.sv = None; C.loc = i.loc
            out.append(Part(n, b, a, add(a, {m: c//size for m, c in ln.items()}), C))
    return out
class Place: pass
def pointee(e):
    while True:
        if e.ty is not None and e.ty.isptr and e.ty.p is not None and e.ty.p.k != 'void': return e.ty.p.size
        if e.k == 'cast': e = e.a[1]
        elif e.k == 'ssa' and definition(e.a[0]) is not None: e = definition(e.a[0])
        else: return None

ROUNDS = 24
TEAMS = (1, 2, 3, 4, 5, 8)
def judge(t, p, outer=None, more=(0, 0), rounds=ROUNDS):
    """('ok'|'undecided'|'alarm', text)"""
    lo, hi = K(add(p.lo, num(more[0]), -1)), K(add(p.hi, num(more[1])))
    if outer is None and (moving(lo) or moving(hi)): return 'undecided', 'search in a table of its own'
    tried = 0
    indirect = bounded_by_table(lo) or bounded_by_table(hi)
    if outer is not None: olo, ohi, osv = K(outer.lo), K(outer.hi), ('phi', outer.C.sv.uid)
    straight = outer is None and not indirect and not choice(lo) and not choice(hi)
    flo = full(lo, 'max') if outer is not None else None
    if flo is not None and dep(flo, T): flo = None
    for r in range(rounds):
        v = Values(t.ptrs, r)
        whole = None
        for n in TEAMS:
            try:
                ivs = {}
                for i in range(n):
                    v.point(i, n)
                    if outer is None: ivs.setdefault(0, []).append((v.term(lo), v.term(hi)))
                    else:
                        for x in range(v.term(olo), min(v.term(ohi), 100)):
                            v.point(i, n, {osv: x})
                            ivs.setdefault(x, []).append((v.term(lo), v.term(hi)))
                            v.point(i, n)
            except Undecided: continue
            tried += 1
            for x, iv in ivs.items():
                w, bad = joined(iv)
                if w is None:
                    a, b, c, d = bad
                    return 'alarm', ('leave a gap' if b < c else 'overlap', n, iv)
                if outer is not None and flo is not None and w != (0, 0):
                    v.point(0, n, {osv: x}); first = v.term(flo); v.point(0, n)
                    if w[0] > first: return 'alarm', ('leave out the beginning of a step of the loop around it', n, iv)
                if indirect or outer is not None: continue
                if straight:
                    v.point(n, n)
                    if v.term(lo) != iv[-1][1] and iv[-1][0] < iv[-1][1]: return 'alarm', ('end where a further thread would not begin', n, iv)
                if lost(v, hi, n, iv[-1][1]): return 'alarm', ('do not include what the division left over', n, iv)
                if n == 1: whole = w
                elif whole is not None and w != whole: return 'alarm', ('are together not the range that one thread alone takes', n, iv)
            if outer is not None and ivs:
                v.point(n - 1, n); z = v.term(ohi)
                if lost(v, ohi, n, z): return 'alarm', ('of the loop around it do not include what the division left over', n, [(0, z)])
    return ('ok', tried) if tried >= 10 else ('undecided', 'too few values')
def lost(v, hi, n, z):
    """does the end of the last part depend on rounding?"""
    v.point(n - 1, n); v.exact = 2 if not modulo(hi) else 1
    try: x = v.term(hi)
    finally: v.exact = False; v.memo = {}
    return x != z and x == int(x)
def modulo(k):
    if isinstance(k, (tuple, frozenset)): return (k and isinstance(k, tuple) and k[0] == 'mod') or any(modulo(y) for y in k)
    return False
def choice(k):
    """does it contain a choice or a search?"""
    if isinstance(k, (tuple, frozenset)):
        if k and isinstance(k, tuple) and k[0] in ('cond', 'lb') and dep(k, T): return True
        return any(choice(y) for y in k)
    return False
def full(k, kind):
    """the bound for a thread that takes the whole step"""
    r = {}
    for m, c in k:
        if len(m) == 1 and m[0][0] == kind and dep(m[0], T):
            xs = [D(full(x, kind)) for x in m[0][1]]; xs = [x for x in xs if not dep(x, T)]
            if not xs: r = add(r, {m: c}); continue
            q = mk_min(xs, kind)
        elif len(m) == 1 and m[0][0] == 'cond' and dep(m[0][1], T):
            xs = [full(x, kind) for x in m[0][2:]]; ys = [x for x in xs if not dep(x, T)]
            q = D(ys[0]) if len(set(ys)) == 1 else {m: 1}
        else: q = {m: 1}
        for l, d in q.items(): r = add(r, {l: d*c})
    return K(r)
def moving(k):
    """a search whose table depends on the thread"""
    if isinstance(k, (tuple, frozenset)):
        if k and isinstance(k, tuple) and k[0] == 'lb' and (dep(k[2], T) or dep(k[3], T)): return True
        return any(moving(y) for y in k)
    return False
def divided(k):
    """something is divided by the number of threads"""
    if isinstance(k, (tuple, frozenset)):
        if k and isinstance(k, tuple) and k[0] in ('div', 'mod') and dep(k[2], N): return True
        return any(divided(y) for y in k)
    return False
def slot(k):
    """an entry of a table with an entry for each thread"""
    if isinstance(k, (tuple, frozenset)):
        if k and isinstance(k, tuple) and k[0] == 'ld' and [(m, c) for m, c in k[1] if T in m] == [((T,), 1)] and not any(dep(a, T) for m, c in k[1] for a in m if a != T): return True
        return any(slot(y) for y in k)
    return False
def used(cfg, sv, body):
    for b in cfg.order:
        if b in body: continue
        for p in b.phis:
            if sv in p.ops.values(): return True
        es = [x for i in b.ins for x in (i.e, i.lv) + tuple(i.args or ()) if x is not None] + ([b.term[1]] if b.term and b.term[0] == 'br' else [])
        if any(mentions(e, sv) for e in es): return True
    return False
def mentions(e, sv):
    if e.k == 'ssa' and e.a[0] is sv: return True
    return any(mentions(x, sv) for x in e.kids())
class Uniform:
    """values that are the same in every thread, given that all threads see the same shared memory"""
    def __init__(self, cfg, t): self.cfg = cfg; self.t = t; self.memo = {}
    def sv(self, s):
        if s not in self.memo:
            self.memo[s] = True                  # for cycles
            self.memo[s] = self.sv_(s)
        return self.memo[s]
    def sv_(self, s):
        d = definition(s)
        if d is not None: return self.e(d)
        if s.kind == 'phi':
            b, p = self.t.phiblock.get(s, (None, None))
            if b is None or not all(self.sv(o) for o in p.ops.values()): return False
            return all(self.e(x.term[1]) or self.master(x.term[1]) for x in self.deciders(b) if x.term[1].k != 'ompcond' and not any(dead(y) for y in x.succs))
        if s.kind == 'callret':
            n = ((s.d.x or {}).get('name') or s.d.callee or '?').split('::')[-1].split('<')[0]
            return n in ('omp_get_num_threads', 'omp_get_max_threads', 'lower_bound', 'upper_bound', 'size') and all(self.e(x) for x in s.d.args if strip_casts(x).k != 'addr')
        return s.kind == 'param'
    def e(self, e):
        if e.k == 'ssa': return self.sv(e.a[0])
        return all(self.e(x) for x in e.kids())
    def master(self, e):
        """one thread does what the others wait for"""
        c = self.t.cond(e)
        while c[0] == 'not': c = c[1]
        return c[0] == 'cmp' and c[1] in ('==', '!=') and {m for m, k in c[2]} <= {(T,), ()}
    def deciders(self, b):
        """the branches that decide how b is entered"""
        if b in self.t.heads:
            body = self.t.heads[b]
            return [x for x in body if x.term and x.term[0] == 'br' and any(y not in body for y in x.succs)]
        d = self.cfg.idom.get(b); seen = set(); st = list(b.preds)
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if x is not d: st += x.preds
        ps = set(b.preds); out = []
        for x in seen:
            if not x.term or x.term[0] != 'br': continue
            r = []
            for y in x.succs:
                got = set(); q = [(x, y)]; vis = set()
                while q:
                    u, w = q.pop()
                    if w is b: got.add(u); continue
                    if w in vis or w not in seen or w is d: continue
                    vis.add(w); q += [(w, z) for z in w.succs]
                r.append(got)
            if any(g != r[0] for g in r): out.append(x)
        return out

def examine(cfg):
    """yields (part, verdict, text) for every loop over a part of a range"""
    t = Terms(cfg)
    ps = parts(cfg, t)
    reg = un = None
    for p in ps:
        lo, hi = K(p.lo), K(p.hi)
        if not (dep(lo, T) or dep(hi, T)): continue
        if not ((divided(lo) and dep(lo, T)) or (divided(hi) and dep(hi, T)) or (slot(lo) and slot(hi))): continue
        # two levels: the inner loop takes a part of each of the outer loop's steps
        if any(q is not p and q.C.head in p.C.body and (dep(K(q.lo), T) or dep(K(q.hi), T)) and uses(q, p.C.sv) for q in ps):
            yield p, 'nested', ''; continue
        outer = next((q for q in ps if q is not p and q.C.sv is not None and p.C.head in q.C.body and uses(p, q.C.sv) and (dep(K(q.lo), T) or dep(K(q.hi), T))), None)
        v, x = judge(t, p, outer)
        if v == 'alarm' and outer is None:
            if p.C.sv is not None and used(cfg, p.C.sv, p.C.body) and judge(t, p, None, (0, 1))[0] == 'ok': v = 'ok'      # the last element follows the loop
        if v == 'alarm':
            reg = reg or inside(cfg)
            ops = opaque((lo, hi), set())
            un = un or Uniform(cfg, t)
            if any(o[0] == 'any' or (t.where.get(o) in reg and not (o in t.svs and un.sv(t.svs[o]))) for o in ops if outer is None or o != ('phi', outer.C.sv.uid)): v, x = 'undecided', 'values computed by the threads'
        p.names = t.names
        yield p, v, x
def uses(p, sv):
    return sv is not None and ('phi', sv.uid) in opaque((K(p.lo), K(p.hi)), set())

def bounded_by_table(k):
    """the bounds are read from a table with an entry for each thread"""
    if isinstance(k, (tuple, frozenset)):
        if k and isinstance(k, tuple) and isinstance(k[0], str) and k[0][:2] == 'ld' and len(k) > 1 and any(T in m or N in m for m, c in k[1]): return True
        if k and isinstance(k, tuple) and k[0] == 'lb' and any(N in m for m, c in k[3]): return True
        return any(bounded_by_table(y) for y in k)
    return False

def text(p, names, depth=0):
    """a term in readable form"""
    if not isinstance(p, dict): p = D(p)
    def a(x):
        if x == T: return 'tid'
        if x == N: return 'nthreads'
        if x[0] in ('min', 'max'): return '%s(%s)' % (x[0], ', '.join(sorted(text(y, names) for y in x[1])))
        if x[0] in ('div', 'mod'): return '(%s)%s(%s)' % (text(x[1], names), '/' if x[0] == 'div' else '%', text(x[2], names))
        if x[0] == 'lb': return '%s(%s.., %s)' % (x[1], text(x[2], names), text(x[4], names))
        if x[0] == 'cond': return '(%s ? %s : %s)' % (c(x[1]), text(x[2], names), text(x[3], names))
        if x[0] == 'ld': return '*(%s)' % text(x[1], names)
        if x[0][:3] == 'ld.': return x[0][3:]
        return names.get(x, x[0])
    def c(x): return '%s %s 0' % (text(x[2], names), x[1]) if x[0] == 'cmp' else '...'
    out = ' + '.join('*'.join(([str(v)] if v != 1 or not m else []) + [a(x) for x in m]) for m, v in sorted(p.items(), key=lambda y: (-len(y[0]), repr(y)))) or '0'
    return out.replace('+ -1*', '- ').replace('+ -', '- ')

def reach(P):
    """functions in which the number of the thread matters"""
    cs = api.callees(P); fs = {f.m: f for f in P.repo_fns()}
    hit = {m for m, f in fs.items() if 'omp_get_thread_num' in repr(f.d['body'])}
    rev = {}
    for m, us in cs.items():
        for u in us: rev.setdefault(m, set()).add(u)
    st = list(hit)
    while st:
        m = st.pop()
        for u in rev.get(m, ()):
            if u not in hit: hit.add(u); st.append(u)
    return [f for f in P.repo_fns() if f.m in hit]
