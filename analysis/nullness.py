"""Absence of optional arrays: conditional constant propagation of one assumption "this pointer is NULL"
through an inlined function in SSA form. Values: integers, NULL, NULL plus an offset, not NULL, unknown."""
from core import *
from typestate import ACQ, REL, cname
from effects import short
import loops

NULLV = 'null'; AN = 'assumed null'; NB = 'null+offset'; NN = 'nonnull'; TOP = 'top'; MAY = 'maybe assumed null'
NONE = (NULLV, AN, NB, MAY)
BOT = None
DEREFS = {'memcpy': (0, 1), 'memmove': (0, 1), 'memset': (0,), 'fwrite': (0,), 'fread': (0,), 'copy': (0, 2), 'fill': (0,), 'sort': (0,), 'binary_search': (0,), 'upper_bound': (0,), 'lower_bound': (0,), 'strlen': (0,), 'accumulate': (0,), 'max_element': (0,), 'min_element': (0,)}

def join(a, b):
    if a is BOT: return b
    if b is BOT: return a
    if a == b: return a
    s = {a, b}
    if all(x in ('positive', 'too big', 'not negative') or isnum(x) and x >= 0 for x in s):
        return 'not negative' if s & {0, 'not negative'} else 'positive'
    if all(x in (NN, 'positive', 'too big') or isnum(x) and x != 0 for x in s): return NN      # not zero
    if s == {NULLV, AN}: return AN
    if s <= {NULLV, AN, NB}: return NB
    if s & {AN, NB, MAY}: return MAY        # absent on one of the paths
    return TOP
def isnum(v): return isinstance(v, int)

class Null:
    def __init__(self, P, cfg):
        self.P = P; self.cfg = cfg
        self.memo = {}
    # the object a member belongs to
    def root(self, lv):
        b = lv.a[0]; k = b.key
        if k in self.memo: return self.memo[k]
        r = None
        x = b
        while x.k == 'fld': x = x.a[0]
        if b.k != 'fld':
            if b.k == 'var': r = ('var', b.a[0])
            elif b.k == 'at':
                p = strip_casts(resolve(b.a[0]))
                if p.k == 'ssa' and p.a[0].kind == 'param': r = ('param', p.a[0].var)
                elif p.k == 'ssa' and p.a[0].kind == 'callret': r = ('alloc', p.a[0])
                elif p.k == 'addr' and p.a[0].k == 'var': r = ('var', p.a[0].a[0])
                elif p.k == 'decay' and p.a[0].k == 'var': r = ('var', p.a[0].a[0])
        self.memo[k] = r
        return r
    def run(self, obj=None, field=None, param=None):
        """assume that member `field` of the object `obj` (an SSA root) or the pointer parameter `param` is NULL"""
        cfg = self.cfg
        self.val = {}; self.exec = set(); self.param = param
        mem0 = {}
        if field is not None: mem0[(obj, field)] = AN
        self.IN = {cfg.entry: mem0}; self.edges = {(None, cfg.entry)}
        order = cfg.rpo()
        for it in range(30):
            self.ch = False
            for b in order:
                if b not in self.IN: continue
                self.exec.add(b)
                mem = dict(self.IN[b])
                for p in b.phis:
                    v = BOT
                    for q, s in p.ops.items():
                        if (q, b) in self.edges: v = join(v, self.sval(s))
                    self.setv(p.sv, v)
                for i in b.ins: self.step(i, mem)
                for s in self.outs(b, mem):
                    if (b, s) not in self.edges: self.edges.add((b, s)); self.ch = True
                    if s not in self.IN: self.IN[s] = dict(mem); self.ch = True
                    else:
                        o = self.IN[s]
                        for k in list(o):
                            v = join(o[k], mem.get(k, TOP))
                            if v == TOP: del o[k]; self.ch = True
                            elif v != o[k]: o[k] = v; self.ch = True
            if not self.ch: break
    def setv(self, s, v):
        o = self.val.get(s, BOT); n = join(o, v)
        if n != o: self.val[s] = n; self.ch = True
    def sval(self, s):
        if s.kind == 'param': return AN if s.var is self.param else TOP
        if s.kind in ('callret',): return NN if cname(s.d) in ACQ or short(cname(s.d)).startswith('operator new') else TOP
        if s.kind in ('set', 'phi'): return self.val.get(s, BOT)
        if s.kind in ('undef', 'decl'): return BOT
        return TOP
    def outs(self, b, mem):
        if b.term and b.term[0] == 'br' and b.term[1].k != 'ompcond':
            v = self.truth(self.ev(b.term[1], mem))
            if v is True: return [b.term[2]]
            if v is False: return [b.term[3]]
            if v is BOT and self.ev(b.term[1], mem) is BOT: return []
        return b.succs
    def truth(self, v):
        if isnum(v): return v != 0
        if v in (NULLV, AN): return False
        if v in (NN, 'positive', 'too big'): return True
        return None
    def step(self, i, mem):
        if i.op == 'set':
            v = self.ev(i.e, mem)
            if i.outs:
                for s in i.outs:
                    if s.kind == 'set': self.setv(s, v)
            elif i.lv.k == 'fld': self.store(i.lv, v, mem)
        elif i.op == 'call':
            if i.dst is not None and i.dst.k == 'fld' and not i.outs:
                self.store(i.dst, NN if cname(i) in ACQ else TOP, mem)
            rs = set()
            for a in list(i.args or ()) + ([i.this] if i.this is not None else []):
                x = strip_casts(resolve(a))
                if x.k == 'addr' and x.a[0].k == 'var': rs.add(('var', x.a[0].a[0]))
                if x.k == 'ssa' and x.a[0].kind == 'param': rs.add(('param', x.a[0].var))
                if x.k == 'addr' and x.a[0].k == 'fld':
                    r = self.root(x.a[0])
                    if r is not None and (r, x.a[0].a[2]) in mem and not constref(a): del mem[(r, x.a[0].a[2])]
            for k in list(mem):
                if k[0] in rs and cname(i) not in REL: del mem[k]
    def store(self, lv, v, mem):
        r = self.root(lv); f = lv.a[2]
        if r is None:
            for k in list(mem):
                if k[1] == f and k[0][0] != 'var': del mem[k]
        elif v in (TOP, BOT): mem.pop((r, f), None)
        else: mem[(r, f)] = v
    def ev(self, e, mem):
        k = e.k
        if k == 'int': return e.a[0]
        if k == 'null': return NULLV
        if k == 'sizeof' and isinstance(e.a[0], int): return e.a[0]
        if k == 'tparm': return self.ev(e.a[1], mem) if isinstance(e.a[1], E) else e.a[1] if isinstance(e.a[1], int) else TOP
        if k in ('str', 'fn', 'addr', 'decay'): return NN
        if k == 'ssa': return self.sval(e.a[0])
        if k == 'cast':
            v = self.ev(e.a[1], mem)
            if isnum(v) and e.ty is not None and e.ty.k == 'bool': return int(v != 0)
            if v in (NULLV, AN) and e.ty is not None and e.ty.k in ('int', 'bool'): return 0
            if v in (NN, 'positive', 'too big') and e.ty is not None and e.ty.k == 'bool': return 1
            if v == 'not negative' and e.ty is not None and e.ty.k != 'int': return TOP
            if v == 0 and e.ty is not None and e.ty.isptr: return NULLV
            if v == NN and e.ty is not None and e.ty.k == 'int': return TOP
            if v in (NB, MAY) and e.ty is not None and not e.ty.isptr: return TOP
            return v
        if k == 'ld':
            lv = e.a[0]
            if lv.k == 'fld':
                r = self.root(lv)
                return mem.get((r, lv.a[2]), TOP) if r is not None else TOP
            return TOP
        if k == 'cond':
            c = self.truth(self.ev(e.a[0], mem))
            if c is True: return self.ev(e.a[1], mem)
            if c is False: return self.ev(e.a[2], mem)
            return join(self.ev(e.a[1], mem), self.ev(e.a[2], mem))
        if k == 'un':
            v = self.ev(e.a[1], mem)
            if e.a[0] == '!':
                t = self.truth(v)
                return BOT if v is BOT else TOP if t is None else int(not t)
            if e.a[0] == '-' and isnum(v): return -v
            return BOT if v is BOT else TOP
        if k == 'bin':
            op = e.a[0]
            if op in ('&&', '||'):
                a = self.ev(e.a[1], mem); ta = self.truth(a)
                if ta is (op == '||'): return int(op == '||')
                b = self.ev(e.a[2], mem); tb = self.truth(b)
                if tb is (op == '||') : return int(op == '||')
                if ta is not None and tb is not None: return int(tb)
                return BOT if a is BOT or b is BOT else TOP
            a, b = self.ev(e.a[1], mem), self.ev(e.a[2], mem)
            if a is BOT or b is BOT: return BOT
            if op in ('==', '!=', '<', '<=', '>', '>='):
                if isnum(a) and isnum(b): return int({'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op])
                if op in ('==', '!='):
                    x, y = (0 if v in (NULLV, AN) else v for v in (a, b))
                    if x == 0 and y == 0: return int(op == '==')
                    if {x, y} in ({0, NN}, {0, 'positive'}): return int(op == '!=')
                return TOP
            if op in ('+', '-'):
                if isnum(a) and isnum(b): return a + b if op == '+' else a - b
                pt = loops.isptr(e) or e.ty is not None and e.ty.isptr
                if pt:
                    for x, y in ((a, b), (b, a)):
                        if x == MAY and y not in NONE + (NN,): return MAY
                        if x in (NULLV, AN, NB) and y not in NONE + (NN,):
                            return x if y == 0 else NB
                    if a == NN or b == NN: return NN
                return TOP
            if op == '*' and (a == 0 or b == 0) and isnum(a) and isnum(b): return 0
            if isnum(a) and isnum(b):
                if op == '*': return a*b
                if op == '/' and b and a >= 0 and b > 0: return a//b
                if op == '%' and b and a >= 0 and b > 0: return a % b
            return TOP
        return TOP
    # ---------------------------------------------------------------- dereferences
    def derefs(self):
        """(instruction or block, expression) of every access through a pointer that is NULL under the assumption"""
        out = []
        for b in self.cfg.blocks:
            if b not in self.exec or b not in self.IN: continue
            mem = dict(self.IN[b])
            for i in b.ins:
                for e in ((i.lv, i.e) if i.op == 'set' else (i.dst,) + tuple(i.args or ()) + (i.this,) if i.op == 'call' else ()):
                    if e is not None: self.walk(e, mem, i, b, out)
                if i.op == 'call':
                    for a in i.args or ():
                        x = strip_casts(a)
                        if x.k == 'addr' and x.a[0].k == 'at' and cname(i) not in REL and self.ev(x.a[0].a[0], mem) in NONE: out.append((i, b, a))
                    for p in DEREFS.get(short(cname(i)), ()):
                        if p < len(i.args) and self.ev(i.args[p], mem) in NONE: out.append((i, b, i.args[p]))
                self.step(i, mem)
            if b.term and b.term[0] in ('br', 'ret') and len(b.term) > 1 and isinstance(b.term[1], E) and b.term[1].k != 'ompcond': self.walk(b.term[1], mem, None, b, out)
            if b.term and b.term[0] == 'br' and b.term[1].k != 'ompcond':
                os = self.outs(b, mem)
                if len(os) == 1 and loops.dead(os[0]): out.append((None, b, b.term[1]))
        return out
    def walk(self, e, mem, i, b, out):
        if e.k == 'cond':
            c = self.truth(self.ev(e.a[0], mem)); self.walk(e.a[0], mem, i, b, out)
            if c is not False: self.walk(e.a[1], mem, i, b, out)
            if c is not True: self.walk(e.a[2], mem, i, b, out)
            return
        if e.k == 'bin' and e.a[0] in ('&&', '||'):
            self.walk(e.a[1], mem, i, b, out)
            if self.truth(self.ev(e.a[1], mem)) is not (e.a[0] == '||'): self.walk(e.a[2], mem, i, b, out)
            return
        if e.k == 'at' and self.ev(e.a[0], mem) in NONE: out.append((i, b, e))
        if e.k in ('addr',):         # taking the address of an element is no access
            x = e.a[0]
            while x.k == 'fld': x = x.a[0]
            if x.k == 'at':
                for y in x.a: self.walk(y, mem, i, b, out)
                return
        for x in e.a:
            if isinstance(x, E): self.walk(x, mem, i, b, out)

def subjects(P, f, cfg):
    """what may be absent: (name, object root, field, param)"""
    out = []
    def cls(t):
        return t.rec if t is not None and t.k == 'rec' else None
    seen = set()
    objs = []
    if f.rec and cfg.this is not None and not f.d.get('static'): objs.append(('this', ('param', cfg.this), f.rec))
    byname = {p.name: p for p in cfg.params}
    for n, p in enumerate(cfg.params):
        t = p.ty
        if t is not None and t.k in ('ptr', 'ref') and t.p is not None and t.p.k == 'rec': objs.append(('#%d' % n, ('param', p), t.p.rec))
        if t is not None and t.k == 'ptr': out.append(('#%d' % n, None, None, p))
    for n, r, c in objs:
        if c in OPT:
            for F in OPT[c]: out.append(('%s->%s' % (n, F), r, F, None))
    return out
OPT = {'SpMP::CSR': ('values', 'idiag', 'diag', 'diagptr', 'extptr'), 'SpMP::COO': ('values',)}

def build(P, f):
    cfg = lower(P, f, inline=lambda g, d: not g.file.startswith('/')); ssa(cfg)
    return cfg
