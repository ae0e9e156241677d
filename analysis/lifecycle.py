"""Lifecycle of memory stored in objects.

Every object an (inlined) public operation touches is followed as a set of vectors: the state of
each member that holds memory, together with the values of the flags that say who owns it.
  X not initialised   E NULL   U unknown at entry (owned memory or NULL)   F memory acquired in this operation
  N not owned (a flag of the object says so, or a pointer copied from elsewhere)   D released, still referenced   ? anything
"""
from core import *
import effects
from effects import Prov, short
from typestate import ACQ, RELNAME, cname
import typestate
REL = dict(typestate.REL, free_huge_pages='huge')

POOL = '<pool>'
# who owns the members: flag -> (value when the object owns them, members; None: all)
FLAGS = {'SpMP::CSR': {'ownData_': (True, {'rowptr', 'extptr', 'colidx', 'values'}), POOL: (False, None)},
         'SpMP::LevelSchedule': {'useMemoryPool': (False, None)}}

OPAQUE = ('SpMP::MemoryPool::contains', 'SpMP::malloc_huge_pages', 'SpMP::free_huge_pages')
ALIASES = {}     # members that may point into another member
def inl(g, d): return not g.file.startswith('/') and g.name not in OPAQUE
def lowered(P, f):
    cfg = lower(P, f, inline=inl); ssa(cfg); return cfg

def cell(lv):
    """(base lvalue of the object, class, member) of a member of an object"""
    idx = ''
    if lv.k == 'at':
        p = strip_casts(resolve(lv.a[0])); i = strip_casts(lv.a[1])
        if p.k == 'addr' and i.k == 'int' and i.a[0] == 0: return cell(p.a[0])
        if p.k != 'decay': return None
        idx = '[%s]' % (i.a[0] if i.k == 'int' else '*')
        lv = p.a[0]
    if lv.k != 'fld': return None
    return lv.a[0], lv.a[1], lv.a[2] + idx

def relkind(i): return REL.get(cname(i)) or REL.get(short(cname(i)))
def summary(r): return any(x in ('*', '') for x in effects.steps(r))

def ckey(lv):
    """identity of the cell, through references to it"""
    if lv.k == 'at':
        p = strip_casts(resolve(lv.a[0])); i = strip_casts(lv.a[1])
        if p.k == 'addr' and i.k == 'int' and i.a[0] == 0: return ckey(p.a[0])
    c = cell(lv)
    return (resolve(c[0]).key,) + c[1:] if c else lv.key

class Own:
    """members that the library stores acquired memory in: class -> member -> kinds of acquisition"""
    def __init__(self): self.m = {}
    def add(self, c, f, kind, where): self.m.setdefault(c, {}).setdefault(f, {}).setdefault(kind, where)
def kind_of(r):
    nm = cname(r[1])
    return ACQ.get(nm) or ('huge' if short(nm) == 'malloc_huge_pages' else 'new[]' if short(nm).startswith('operator new[]') else 'new' if short(nm).startswith('operator new') else 'pool' if short(nm) in ('allocate', 'allocateFront') else 'pool')
def owned(P, cfgs):
    o = Own()
    for cfg, pv in cfgs:
        for i in cfg.instrs():
            if i.op == 'set': lv = i.lv
            elif i.op == 'call' and i.dst is not None: lv = i.dst
            else: continue
            c = cell(lv)
            if c is None or c[1] is None or lv.ty is not None and not lv.ty.isptr: continue
            rs = pv.prov(i.e) if i.op == 'set' else pv.callprov(i)
            e = strip_casts(i.e) if i.op == 'set' else None
            if e is not None and e.k == 'bin': continue
            for r in rs:
                if r[0] == 'alloc': o.add(c[1], c[2], kind_of(r), i)
    return o

class Run:
    def __init__(self, P, cfg, pv, own, classes, report, ctor=None, dtor=None, empty=False):
        self.P = P; self.cfg = cfg; self.pv = pv; self.own = own; self.rep = report
        self.ctor = ctor; self.dtor = dtor; self.empty = empty
        self.objs = {}              # root -> class
        self.reported = set()
        for i in cfg.instrs():
            for lv in self.cells(i):
                c = cell(lv)
                if c and c[1] in own.m:
                    rs = self.roots(c[0])
                    for r in rs:
                        if r[0] in ('param', 'var', 'alloc', 'in') and not summary(r): self.objs.setdefault(r, c[1])
        if ctor and ('param', cfg.this) in self.objs or ctor in own.m: self.objs[('param', cfg.this)] = ctor
        if dtor in own.m: self.objs[('param', cfg.this)] = dtor
        self.n = 0; self.origin = {}
        self.blk = {id(i): b for b in cfg.blocks for i in b.ins}
        self.stores = {}
        for b in cfg.blocks:
            for i in b.ins:
                lv = i.lv if i.op == 'set' else i.dst if i.op == 'call' else None
                if lv is not None and cell(lv): self.stores.setdefault(ckey(lv), []).append((i, b))
    def cells(self, i):
        if i.op == 'set': yield i.lv
        if i.op == 'call':
            if i.dst is not None: yield i.dst
            if relkind(i) and i.args:
                a = self.source(i.args[0])
                if a is not None: yield a
    def roots(self, base):
        if base.k == 'at': return self.pv.prov(base.a[0])
        if base.k == 'var': return frozenset([('var', base.a[0])])
        if base.k == 'fld': return self.pv.lvroots(base)
        return frozenset()
    def source(self, e):
        """member a pointer value was loaded from"""
        e = strip_casts(resolve(e))
        while e.k == 'cast' or e.k == 'bin' and e.a[0] in '+-':
            e = strip_casts(e.a[1])
        return e.a[0] if e.k == 'ld' and cell(e.a[0]) else None
    def loads(self, e):
        """instruction that loaded a pointer value from a member, if the value is kept in a variable"""
        e = strip_casts(e)
        while e.k == 'ssa' and e.a[0].kind == 'set':
            d = e.a[0].d; x = strip_casts(d.e)
            if x.k == 'ld' and cell(x.a[0]): return d, e.a[0].block
            e = x
        return None
    def stale(self, e, i):
        """the member was overwritten after this value was loaded from it: the value is what the member held before"""
        l = self.loads(e)
        if l is None: return None
        lv = strip_casts(l[0].e).a[0]; k = ckey(lv)
        for j, b in self.stores.get(k, ()):
            if j is not i and self.before(l[0], l[1], j, b) and self.before(j, b, i, self.blk[id(i)]): return lv
        return None
    def before(self, a, ab, b, bb):
        if ab is bb: return ab.ins.index(a) < ab.ins.index(b)
        return dominates(self.cfg.idom, ab, bb)
    def kept(self, i):
        """what the overwritten member held was loaded before and is released or stored elsewhere afterwards"""
        lv = i.lv if i.op == 'set' else i.dst
        for b in self.cfg.blocks:
            for j in b.ins:
                if j is i: continue
                if j.op == 'call' and relkind(j) and j.args: e = j.args[0]
                elif j.op == 'set' and not j.outs: e = j.e
                else: continue
                l = self.loads(e)
                if l is not None and ckey(strip_casts(l[0].e).a[0]) == ckey(lv) and self.before(l[0], l[1], i, self.blk[id(i)]): return True
        return False
    def where(self, lv):
        c = cell(lv)
        if c is None or c[1] not in self.own.m and c[1] not in FLAGS: return None
        rs = [r for r in self.roots(c[0]) if r in self.objs]
        return (rs, c[2], c[1]) if rs else None
    # vectors: frozenset of (member, state) as dict items
    def fields(self, r): return self.own.m.get(self.objs[r], {})
    def initial(self, r):
        c = self.objs[r]; fl = FLAGS.get(c, {})
        if r[0] in ('alloc', 'var') and not (r[0] == 'var' and r[1].kind not in ('local', 'temp')):
            v = {f: 'X' for f in self.fields(r)}
            v.update({x: (False if x == POOL else 'X') for x in fl}); return {frozenset(v.items())}
        if self.ctor and r == ('param', self.cfg.this):
            v = {f: 'X' for f in self.fields(r)}
            v.update({x: (False if x == POOL else 'X') for x in fl}); return {frozenset(v.items())}
        if self.empty and r == ('param', self.cfg.this):
            v = {f: 'E' for f in self.fields(r)}
            v.update({x: (False if x == POOL else '?') for x in fl}); return {frozenset(v.items())}
        outs = [{}]
        for x in fl: outs = [dict(o, **{x: b}) for o in outs for b in (True, False)]
        res = set()
        for o in outs:
            v = dict(o)
            for f in self.fields(r):
                v[f] = 'U'
                for x, (ownval, members) in fl.items():
                    if (members is None or f in members) and o[x] != ownval: v[f] = 'N'
            res.add(frozenset(v.items()))
        return res
    def governed(self, c, f, v):
        """the flags that say the member is not owned, in this vector"""
        return [x for x, (ownval, members) in FLAGS.get(c, {}).items() if (members is None or f in members) and v.get(x) != ownval]
    def report(self, ins, rule, what):
        k = (rule, what, locstr(ins.loc) if ins is not None and ins.loc else '')
        if k in self.reported: return
        self.reported.add(k); self.rep(ins, rule, what)
    def name(self, r, f):
        n = effects.rshow(r) if r[0] != 'alloc' else 'the new object'
        return '%s%s%s' % (n, '.' if r[0] == 'var' else '->', f)
    def upd(self, st, r, fn):
        return {k: (frozenset(x for v in vs for x in [fn(dict(v))] if x is not None) if k == r else vs) for k, vs in st.items()}
    def step(self, st, i):
        if i.op == 'call':
            for r in self.objs:
                if r[0] == 'alloc' and r[1] is i: st = dict(st); st[r] = frozenset(self.initial(r))
            nm = cname(i)
            if relkind(i) and i.args:
                lv = self.source(i.args[0]); w = self.where(lv) if lv is not None else None
                if w and self.stale(i.args[0], i) is not None: pass
                elif w:
                    rs, f, c = w
                    for r in rs:
                        if f not in self.fields(r): continue
                        self.n += 1
                        def free(v, r=r, f=f):
                            s = v[f]
                            if len(rs) > 1: v[f] = '?'; return frozenset(v.items())
                            if s == 'X': self.report(i, 'uninitialised member released', '%s is released before it is initialised' % self.name(r, f))
                            elif s == 'D': self.report(i, 'released twice', '%s is released again' % self.name(r, f))
                            elif s == 'N':
                                self.report(i, 'memory of somebody else released', '%s is released although the object does not own it%s' % (self.name(r, f), ' (%s)' % ', '.join('%s is %s' % (x if x != POOL else 'memory pool', str(v[x]).lower()) for x in self.governed(self.objs[r], f, v)) if self.governed(self.objs[r], f, v) else ''))
                            if s in 'UF':
                                ks = set(self.fields(r)[f]) - {'pool'}
                                if ks and relkind(i) not in ks: self.report(i, 'wrong deallocator', '%s is released by %s but acquired by %s' % (self.name(r, f), nm, '/'.join(sorted(ks))))
                            if s != 'E': v[f] = 'D'
                            return frozenset(v.items())
                        st = self.back(self.upd(st, r, free), r, f, 'D') if any(dict(v)[f] == 'T' for v in st.get(r, ())) else self.upd(st, r, free)
                elif lv is None:         # the object itself is released
                    for r in self.pv.prov(i.args[0]):
                        if r in self.objs: st = self.upd(st, r, lambda v: frozenset((k, '?' if isinstance(s, str) else s) for k, s in v.items()))
            if i.dst is not None and self.where(i.dst): st = self.assign(st, i, i.dst, None)
            for a in list(i.args or ()) + ([i.this] if i.this is not None else []):        # address of an object passed to unknown code
                for r in self.pv.prov(a) if (a.k in ('addr', 'decay') and a.a[0].k == 'var' and not constref(a)) else ():
                    if r in self.objs: st = self.upd(st, r, lambda v: frozenset((k, '?' if isinstance(s, str) else s) for k, s in v.items()))
        elif i.op == 'set':
            if self.where(i.lv): st = self.assign(st, i, i.lv, i.e)
            elif i.lv.ty is not None and i.lv.ty.k == 'rec' and i.lv.ty.rec in self.own.m:
                self.copied(i)
        elif i.op == 'decl' and i.lv is not None and i.lv.k == 'var' and ('var', i.lv.a[0]) in self.objs:
            r = ('var', i.lv.a[0]); st = dict(st); st[r] = frozenset(self.initial(r))
        return st
    def back(self, st, r, f, new):
        """a pointer taken over from other members is given up (U) or released (D)"""
        if new == 'U' and not any(dict(v)[f] == 'T' for v in st.get(r, ())): return st
        for r2, f2 in self.origin.get((r, f), ()):
            if r2 in st: st = self.upd(st, r2, lambda v: frozenset(dict(v, **{f2: new if v[f2] == 'M' else v[f2]}).items()))
        return st
    def copied(self, i): pass
    def assign(self, st, i, lv, e):
        rs, f, c = self.where(lv)
        for r in rs:
            fl = FLAGS.get(self.objs[r], {})
            if f in fl:
                x = strip_casts(resolve(e)) if e is not None else None
                val = bool(x.a[0]) if x is not None and x.k == 'int' else '?'
                def setf(v):
                    v[f] = val if len(rs) == 1 else '?'
                    return frozenset(v.items())
                st = self.upd(st, r, setf); continue
            if f not in self.fields(r):
                if f.endswith(']') and f.split('[')[0] + '[*]' in self.fields(r): f = f.split('[')[0] + '[*]'
                else: continue
            self.n += 1
            prov = self.pv.prov(e) if e is not None else self.pv.callprov(i)
            x = strip_casts(resolve(e)) if e is not None else None
            news = None; same = None
            if x is not None and (x.k == 'null' or x.k == 'int'): new = 'E'
            elif x is not None and any(y.k == 'ld' and cell(y.a[0]) and ckey(y.a[0]) == ckey(lv) for y in x.walk()) and self.stale(e, i) is None: continue       # moved within its block
            else:
                src = x.a[0] if x is not None and x.k == 'ld' and cell(x.a[0]) else None
                w = self.where(src) if src is not None else None
                if w and len(w[0]) == 1 and w[1] in self.fields(w[0][0]):        # taken over from another member
                    r2, f2 = w[0][0], w[1]; new = 'N'
                    if self.stale(e, i) is not None: new = '?'
                    elif r2 == r: same = f2
                    elif len(rs) == 1:
                        news = {dict(v)[f2] for v in st.get(r2, ())}
                        news = {'T' if q in 'UF' else q if q == 'E' else '?' if q == '?' else 'N' for q in news}
                        self.origin.setdefault((r, f), set()).add((r2, f2))
                        st = self.upd(st, r2, lambda v: frozenset(dict(v, **{f2: 'M' if v[f2] in 'UF' else v[f2]}).items()))
                elif prov and all(p[0] == 'alloc' for p in prov) and not (x is not None and x.k == 'bin'): new = 'F'
                elif prov and any(p[0] == 'alloc' for p in prov): new = '?'
                else: new = 'N'
            st = self.back(st, r, f, 'U')
            if news:
                st2 = None
                for q in sorted(news):
                    z = self.upd(st, r, lambda v: self.put(v, f, r, q, rs, i, None))
                    st2 = z if st2 is None else {k: st2[k] | z[k] for k in z}
                st = st2; continue
            st = self.upd(st, r, lambda v: self.put(v, f, r, new, rs, i, same, prov))
        return st
    def put(self, v, f, r, new, rs, i, same, prov=()):
        fl = FLAGS.get(self.objs[r], {})
        s = v[f]
        if len(rs) > 1: v[f] = '?'; return frozenset(v.items())
        if s in 'UF' and self.kept(i): pass
        elif s == 'F' and not f.endswith('[*]'):
            self.report(i, 'memory lost', '%s is overwritten while it holds memory acquired here' % self.name(r, f))
        elif s == 'U' and not f.endswith('[*]'):
            self.report(i, 'memory lost', '%s is overwritten without releasing what it held%s' % (self.name(r, f), ''))
        v[f] = 'E' if same is not None and v.get(same) == 'E' else new
        if f == 'rowptr' and POOL in fl and new != 'E':        # where the matrix lives now
            v[POOL] = False if new == 'F' and not any(kind_of(p) == 'pool' for p in prov) else v[POOL]
        return frozenset(v.items())
    def edge(self, st, b):
        """states on the true and on the false edge"""
        c = b.term[1]; pos = True
        c = strip_casts(resolve(c))
        while True:
            if c.k == 'un' and c.a[0] == '!': pos = not pos; c = strip_casts(c.a[1])
            elif c.k == 'bin' and c.a[0] in ('==', '!='):
                l, r = strip_casts(c.a[1]), strip_casts(c.a[2])
                zl = l.k == 'null' or l.k == 'int' and l.a[0] == 0; zr = r.k == 'null' or r.k == 'int' and r.a[0] == 0
                if zl == zr: return st, st
                if c.a[0] == '==': pos = not pos
                c = r if zl else l
            else: break
        t = f = st
        if c.k == 'ssa' and c.a[0].kind == 'callret' and cname(c.a[0].d) == 'SpMP::MemoryPool::contains':
            d = c.a[0].d; lv = self.source(d.args[0]); w = self.where(lv) if lv is not None else None
            if w and len(w[0]) == 1 and POOL in FLAGS.get(self.objs[w[0][0]], {}):
                r = w[0][0]
                t = self.upd(st, r, lambda v: frozenset(v.items()) if v[POOL] != False else None)
                f = self.upd(st, r, lambda v: frozenset(v.items()) if v[POOL] != True else None)
        elif c.k == 'ld' or c.k == 'ssa':
            lv = c.a[0] if c.k == 'ld' and cell(c.a[0]) else self.source(c)
            w = self.where(lv) if lv is not None else None
            if w and len(w[0]) == 1:
                r, fd = w[0][0], w[1]
                fl = FLAGS.get(self.objs[r], {})
                if fd in fl:
                    t = self.upd(st, r, lambda v: frozenset(dict(v, **{fd: True if v[fd] == '?' else v[fd]}).items()) if v[fd] not in (False,) else None)
                    f = self.upd(st, r, lambda v: frozenset(dict(v, **{fd: False if v[fd] == '?' else v[fd]}).items()) if v[fd] not in (True,) else None)
                    for v in st.get(r, ()):
                        if dict(v)[fd] == 'X': self.report(b.ins[-1] if b.ins else None, 'uninitialised member read', '%s is read before it is initialised' % self.name(r, fd))
                elif fd in self.fields(r):
                    for v in st.get(r, ()):
                        if dict(v)[fd] == 'X': self.report(b.ins[-1] if b.ins else None, 'uninitialised member read', '%s is read before it is initialised' % self.name(r, fd))
                    t = self.upd(st, r, lambda v: frozenset(v.items()) if v[fd] != 'E' else None)
                    f = self.upd(st, r, lambda v: frozenset(dict(v, **{fd: 'E'}).items()) if v[fd] not in 'FD' else None)
        def feas(s): return None if any(not vs for r, vs in s.items()) else s
        t, f = feas(t), feas(f)
        return (t, f) if pos else (f, t)
    def run(self):
        if not self.objs: return
        st0 = {r: frozenset(self.initial(r)) if r[0] not in ('alloc',) else frozenset([frozenset({f: '?' for f in self.fields(r)} | {x: '?' for x in FLAGS.get(self.objs[r], {})} if False else list({f: 'X' for f in self.fields(r)}.items()) + [(x, False if x == POOL else 'X') for x in FLAGS.get(self.objs[r], {})])]) for r in self.objs}
        IN = {self.cfg.entry: st0}; work = [self.cfg.entry]; it = 0
        while work:
            b = work.pop(); st = IN[b]; it += 1
            if it > 200000: raise RuntimeError('no fixpoint in %s' % self.cfg.fn.pretty)
            for i in b.ins: st = self.step(st, i)
            if b.term and b.term[0] == 'br':
                t, f = self.edge(st, b); outs = [(b.term[2], t), (b.term[3], f)]
            else: outs = [(s, st) for s in b.succs]
            if b.term and b.term[0] == 'ret': self.exit(st, b)
            for s, x in outs:
                if x is None: continue
                if s not in IN: IN[s] = x; work.append(s)
                else:
                    n = {r: IN[s][r] | x[r] for r in x}
                    if n != IN[s]: IN[s] = n; work.append(s)
    def exit(self, st, b):
        last = None
        for r, vs in st.items():
            c = self.objs[r]; this = r == ('param', self.cfg.this)
            released = self.P.records.get(c, {}).get('udtor')
            for v in vs:
                v = dict(v)
                for f in self.fields(r):
                    s = v[f]
                    if this and self.ctor:
                        if s == 'X': self.report(None, 'uninitialised member', '%s is not initialised by the constructor' % self.name(r, f))
                    if this and self.dtor:
                        if s == 'U': self.report(None, 'not released', '%s is not released by the destructor' % self.name(r, f))
                        continue
                    if s == 'D': 
                        if r[0] != 'var' and r[0] != 'alloc': self.report(None, 'dangling member', '%s still points to released memory when the operation ends' % self.name(r, f))
                    if s in 'NM' and not self.governed(c, f, v) and (r[0] != 'var') and not (c in FLAGS and f.split('[')[0] in ALIASES.get(c, ())) and not (POOL in v and v[POOL] == '?'):
                        self.report(None, 'owned twice', '%s holds a pointer that belongs to somebody else, but the object will release it' % self.name(r, f))
                    if s == 'F' and r[0] == 'var' and r[1].kind in ('local', 'temp') and released: self.report(None, 'not released', '%s of a local object is not released' % self.name(r, f))
                    if s == 'F' and released and not (r[0] == 'var'):
                        g = [x for x in self.governed(c, f, v) if x != POOL and v.get(x) in (True, False) and x == 'ownData_']
                        if g: self.report(None, 'ownership not recorded', '%s holds new memory but the object does not own its data (%s)' % (self.name(r, f), ', '.join(g)))
                if this and self.ctor:
                    for x in FLAGS.get(c, {}):
                        if v.get(x) == 'X': self.report(None, 'uninitialised member', '%s is not initialised by the constructor' % self.name(r, x))

def initialised(cfg, P, c):
    """members of simple type that the constructor leaves unset on some path"""
    rec = P.records.get(c)
    names = {f['name'] for f in rec['fields'] if f['ty'].k in ('int', 'bool', 'float', 'ptr')}
    arr = {f['name'] for f in rec['fields'] if f['ty'].k == 'array'}
    pv = Prov(P, cfg)
    def gen(i):
        out = set()
        lv = i.lv if i.op == 'set' else i.dst if i.op == 'call' else None
        if lv is not None:
            x = cell(lv)
            if x and x[1] == c: out.add(x[2].split('[')[0])
        if i.op == 'call':
            for a in i.args or ():
                for y in a.walk():
                    if y.k == 'addr' and y.a[0].k == 'fld' and y.a[0].a[1] == c: out.add(y.a[0].a[2])
                    if y.k == 'decay' and y.a[0].k == 'fld' and y.a[0].a[1] == c: out.add(y.a[0].a[2])
        return out
    full = frozenset(names | arr)
    IN = {cfg.entry: frozenset()}; work = [cfg.entry]; ex = None
    while work:
        b = work.pop(); s = IN[b]
        for i in b.ins: s = s | gen(i)
        if b.term and b.term[0] == 'ret': ex = s if ex is None else ex & s
        for t in b.succs:
            n = s if t not in IN else IN[t] & s
            if t not in IN or n != IN[t]: IN[t] = n; work.append(t)
    # a loop over an array member may run zero times only if the array is empty
    if ex is None: return set()
    anyset = {x for b in cfg.blocks for i in b.ins for x in gen(i)}
    return {n for n in names if n not in ex} | {a for a in arr if a not in anyset}

# ------------------------------------------------------------------ copies
def released(P, cf, own):
    """classes whose destructor releases what their members hold"""
    out = {}
    for m, (cfg, pv) in cf.items():
        f = cfg.fn
        if not f.d.get('isdtor') or f.rec not in own.m: continue
        for i in cfg.instrs():
            if i.op == 'call' and relkind(i) and i.args:
                e = strip_casts(resolve(i.args[0]))
                if e.k == 'ld' and cell(e.a[0]) and cell(e.a[0])[1] == f.rec: out.setdefault(f.rec, cell(e.a[0])[2])
    return out
def special(P, own, rel):
    """classes that release memory but can be copied member by member: (class, what)"""
    for c, mem in sorted(rel.items()):
        r = P.records[c]
        def safe(k, n=0):
            x = P.records.get(k.replace('class ', '').replace('struct ', ''), {})
            return x.get('ucopy') and not x.get('copydef') and x.get('uassign') and not x.get('assigndef') or n < 5 and any(safe(b, n + 1) for b in x.get('bases', ()))
        where = r['l'][0]
        if where.endswith(('.hpp', '.h')):
            if not safe(c): yield c, 'its destructor releases %s, but copies made by the compiler share it' % mem, r['l']
        else:
            for f in P.repo_fns():
                if f.d.get('copyctor') and f.d.get('implicit') and f.rec == c: yield c, 'its destructor releases %s, and it is copied member by member' % mem, r['l']
def copies(P, cfg, pv, own, rel):
    """completeness of a copy constructor or assignment: yields (rule, ins, what)"""
    import loops
    f = cfg.fn; c = f.rec; src = None
    for k, p in enumerate(f.params):
        t = f.unit.types[p['t']]
        if t.k == 'ref' and t.p is not None and t.p.k == 'rec' and t.p.rec == c: src = p
    if src is None: return
    def issrc(r, F):      # memory that the member F of the source points to
        return r[0] == 'in' and r[2] == F and r[1][0] == 'param' and r[1][1] is not cfg.this
    def from_src(e):
        return {y.a[0].a[2] for y in resolve(e).walk() if y.k == 'ld' and y.a[0].k == 'fld' and any(q[0] == 'param' and q[1] is not cfg.this for q in pv.lvroots(y.a[0]))}
    def via(e, n):        # taken from a local copy
        return any(y.k == 'ld' and y.a[0].k == 'fld' and y.a[0].a[1] == c and y.a[0].a[2] == n and y.a[0].a[0].k == 'var' for y in resolve(e).walk())
    C = loops.counted(cfg); sets = {}; alloc = {}
    for i in cfg.instrs():
        lv = i.lv if i.op == 'set' else i.dst if i.op == 'call' else None
        x = cell(lv) if lv is not None else None
        if x and x[1] == c and any(r == ('param', cfg.this) for r in pv.lvroots(lv)):
            if i.op == 'set': sets.setdefault(x[2], []).append(i)
            for r in (pv.prov(i.e) if i.op == 'set' else pv.callprov(i)):
                if r[0] == 'alloc': alloc.setdefault(x[2], set()).add(r)
    def norm(d):
        r = {}
        for k, v in d.items():
            if k != 1 and k[0] == 'ld' and k[1][0] == 'fld': k = ('member', k[1][-1])
            r[k] = r.get(k, 0) + v
        return r
    mem = own.m.get(c, {})
    for fd in P.records[c]['fields']:
        n = fd['name']
        if n in FLAGS.get(c, {}): continue
        if n in mem:
            if n not in alloc: yield 'incomplete copy', None, '%s is not copied' % n; continue
            done = []
            for i in cfg.instrs():
                if i.op == 'set' and i.lv.k == 'at' and pv.lvroots(i.lv) & alloc[n]:
                    ix = loops.lf(i.lv.a[1]); v = strip_casts(resolve(i.e))
                    ok = v.k == 'ld' and v.a[0].k == 'at' and any(issrc(r, n) for r in pv.lvroots(v.a[0])) and loops.plus(loops.lf(v.a[0].a[1]), ix, -1) == {}
                    if not ok: yield 'incomplete copy', i, 'an element of %s is set to something else than the same element of the source' % n
                    cs = [q for q in C if i.block in q.body and ix == {('ssa', q.sv.uid): 1}]
                    el = i.lv.ty.size if i.lv.ty is not None and getattr(i.lv.ty, 'size', None) else None
                    done.append((i, cs[0].lo if cs and cs[0].step == 1 else None, cs[0].hi if cs and cs[0].step == 1 and cs[0].exact else None, 1))
                elif i.op == 'call' and short(cname(i)) in ('memcpy', 'memmove') and pv.prov(i.args[0]) & alloc[n]:
                    if not any(issrc(r, n) for r in pv.prov(i.args[1])): yield 'incomplete copy', i, '%s is filled from something else than the same member of the source' % n
                    done.append((i, {}, loops.lf(i.args[2]), 0))
                elif i.op == 'call' and short(cname(i)) in ('copy', 'copy_n') and pv.prov(i.args[2]) & alloc[n]: done.append((i, None, None, 0))
                elif i.op == 'call' and any(pv.prov(a) & alloc[n] for a in pv.callwrites(i)) and not relkind(i): done.append((i, None, None, 0))
            if not done: yield 'incomplete copy', None, 'the contents of %s are not copied' % n; continue
            for r in alloc[n]:
                if not r[1].args: continue
                size = norm(loops.lf(r[1].args[0]))
                for i, lo, hi, el in done:
                    if hi is None: continue
                    if lo: yield 'incomplete copy', i, 'the first elements of %s are not copied' % n
                    hi = norm(hi)
                    if el:          # elements: divide the size by the coefficient they share
                        cf = {abs(v) for v in size.values()}; g = 0
                        import math
                        for v in cf: g = math.gcd(g, v)
                        g0 = [x for x in (8, 4, 2, 1) if g % x == 0]
                        szs = [{k: v//x for k, v in size.items()} for x in g0]
                    else: szs = [size]
                    ds = [loops.plus(s, hi, -1) for s in szs]
                    if any(d == {} for d in ds): continue
                    if any(loops.const(d) is not None for d in ds): yield 'incomplete copy', i, 'only part of %s is copied' % n
        elif fd['ty'].k in ('int', 'bool', 'float'):
            if n not in sets: yield 'incomplete copy', None, '%s is not copied' % n
            elif not any(n in from_src(i.e) or via(i.e, n) for i in sets[n]): yield 'incomplete copy', sets[n][0], '%s is not taken from the source' % n
