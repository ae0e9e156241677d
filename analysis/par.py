"""Concurrency analyses of OpenMP parallel regions.

For every parallel region (the function that contains it lexically is the root, callees
are inlined): which values differ between threads, which barriers separate which
accesses, which accesses of shared memory can touch the same element in two threads.

 * barrier convergence: a barrier must not be executed under a condition (or in a loop)
   on which the threads of the team can disagree. Conditions on "is this thread 0" are
   allowed if a product of both roles shows that they meet at every barrier.
 * race freedom: two accesses of the same array, at least one of them a write, that can
   happen in parallel (no barrier in between) must be separated: by a single/master/
   critical construct or by addresses that are disjoint between threads (own thread
   index, own loop iterations, own partition, own segment of an offset table).
"""
import re
import core
from core import E, Int, lower, ssa, resolve, strip_casts, promote_outparams, locstr

ATOMICS = ('__sync_', '__atomic_', 'atomic_')
READONLY_STD = {'upper_bound', 'lower_bound', 'binary_search', 'strlen', 'printf', 'fprintf', 'puts', 'min_element', 'max_element', 'accumulate', 'is_sorted', 'memcmp', 'equal', 'count', 'find'}

def is_wait(name): return name.endswith('Barrier::wait') or name.endswith('LoadImba::wait') or name.endswith('::Barrier::init') and False

def is_partition(fn):
    """a function that computes the calling thread's part of a range: out-parameters only,
    uses the thread number, no synchronisation"""
    if getattr(fn, '_ispart', None) is not None: return fn._ispart
    outs = [p for p in fn.params if fn.unit.types[p['t']].isptr and fn.unit.types[p['t']].p and fn.unit.types[p['t']].p.isint and not fn.unit.types[p['t']].p.const]
    r = False
    if len(outs) == 2 and fn.rt is not None and fn.rt.k == 'void':
        s = repr(fn.d['body'])
        r = 'omp_get_thread_num' in s and "'barrier'" not in s and "'parallel" not in s and "'for'" not in repr([x for x in s if False])
    fn._ispart = r
    return r

def has_parallel(fn):
    if getattr(fn, '_haspar', None) is None:
        def w(x):
            if isinstance(x, dict):
                if x.get('k') == 'omp' and str(x.get('d', '')).startswith('parallel'): return True
                return any(w(y) for y in x.values() if isinstance(y, (dict, list)))
            if isinstance(x, list): return any(w(y) for y in x)
            return False
        fn._haspar = w(fn.d['body'])
    return fn._haspar

def constval(e):
    e = strip_casts(e)
    if e.k == 'tparm': return constval(e.a[1])
    if e.k == 'int': return e.a[0]
    if e.k == 'un' and e.a[0] == '!':
        v = constval(e.a[1]); return None if v is None else int(not v)
    if e.k == 'bin' and e.a[0] in ('==', '!=', '<', '>', '&&', '||'):
        a, b = constval(e.a[1]), constval(e.a[2])
        if a is None or b is None: return None
        return int({'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '&&': a and b, '||': a or b}[e.a[0]])
    return None

def cname(i): return (i.x or {}).get('name') or i.callee or '?'

class Region: pass

def postdominators(cfg):
    """immediate post-dominators; paths that end in an abort do not count"""
    exits = [b for b in cfg.blocks if not b.succs and not (b.term and b.term[0] == 'unreach')]
    order = []; seen = set()
    for e in exits:
        st = [(e, iter(e.preds))]; seen.add(e)
        while st:
            b, it = st[-1]
            for p in it:
                if p not in seen: seen.add(p); st.append((p, iter(p.preds))); break
            else: order.append(b); st.pop()
    order = order[::-1]; num = {b: n for n, b in enumerate(order)}
    V = 'exit'; ip = {e: V for e in exits}; num[V] = -1
    def meet(a, b):
        while a is not b:
            while num[a] > num[b]: a = ip[a]
            while num[b] > num[a]: b = ip[b]
        return a
    ch = True
    while ch:
        ch = False
        for b in order:
            if b in exits: continue
            n = None
            for s in b.succs:
                if s in ip and s in num: n = s if n is None else meet(n, s)
            if n is not None and ip.get(b) is not n: ip[b] = n; ch = True
    return ip

class Par:
    def __init__(self, P, fn):
        self.reviewed = {}; self.fn = fn
        self.P = P; self.fn = fn
        def inl(g, d):
            if g.file.startswith('/'): return False
            if is_wait(g.name) or g.rec and 'Barrier' in str(g.rec) or 'LoadImba' in str(g.rec): return False
            if is_partition(g): return False
            if 'MemoryPool' in str(g.rec): return False
            return True
        self.cfg = lower(P, fn, inline=inl, maxdepth=10)
        promote_outparams(self.cfg)
        cfg = self.cfg
        for b in cfg.blocks:            # template arguments decide their branches
            if b.term and b.term[0] == 'br':
                v = constval(b.term[1])
                if v is not None: b.term = ('jmp', b.term[2] if v else b.term[3])
        cfg.finish()
        self.regions = []
        for R in cfg.regions:
            if R.node is None: continue
            self.regions.append(R)
        # only regions that belong lexically to the root
        own = []
        for b in cfg.blocks:
            for i in b.ins:
                if i.op == 'parallel' and not i.stack and i.x in self.regions and not any(c.kind == 'omp' and c.d == 'parallel' for c in i.ctx): own.append((i.x, b))
        keep = set(); infos = []
        for R, pb in own:
            info = Region(); info.R = R; info.blocks = self.region_blocks(R)
            info.keep = self.shared_written(R, info.blocks)
            keep |= info.keep; infos.append(info)
        ssa(cfg, keep=keep)
        self.keep = keep
        self.ipdom = postdominators(cfg)
        self.infos = infos
        for info in infos: RegionAnalysis(self, info)

    def region_blocks(self, R):
        out = []; seen = {R.first}; st = [R.first]
        while st:
            b = st.pop(); 
            out.append(b)
            if any(i.op == 'endparallel' and i.x is R for i in b.ins): out.pop(); continue
            for s in core.succs(b):
                if s not in seen: seen.add(s); st.append(s)
        o = {b: n for n, b in enumerate(self.cfg.rpo())}
        return sorted(out, key=lambda b: o[b])

    def shared_written(self, R, blocks):
        priv = {v for _, v, _ in R.privs if v is not None}
        out = set()
        def cand(e):
            if e is not None and e.k == 'var':
                v = e.a[0]
                if v.kind in ('local', 'param', 'temp') and R not in getattr(v, 'ctx', ()) and v not in priv: out.add(v)
        forvars = set()
        for b in blocks:
            for i in b.ins:
                for c in i.ctx:
                    if c.kind == 'omp' and c.d == 'for':
                        for n, v, op in c.privs: forvars.add(v)
                if i.op in ('set', 'decl'): cand(i.lv)
                if i.op == 'call':
                    cand(i.dst)
                    for a in list(i.args) + ([i.this] if i.this is not None else []):
                        if a.k == 'addr' and a.a[0].k == 'var' and not core.constref(a): cand(a.a[0])
        # iteration variables of worksharing loops are private
        for L in self.cfg.loops:
            if any(c is R for c in L.head.ctx):
                fs = [c for c in L.head.ctx if c.kind == 'omp' and c.d == 'for']
                if fs and L is next((c for c in L.head.ctx[L.head.ctx.index(fs[-1]) + 1:] if c.kind == 'loop'), None):
                    for i in L.inc.ins:
                        if i.op == 'set' and i.lv.k == 'var': forvars.add(i.lv.a[0])
        return out - forvars

class Acc:
    __slots__ = ('kind', 'root', 'idx', 'ins', 'block', 'pos', 'val', 'atomic', 'vol', 'one', 'crit', 'starts', 'range', 'text', 'role', 'whole')
    def __repr__(self): return '%s%s %s%s @%s one=%s' % ('A' if self.atomic else '', self.kind, self.root, ''.join('[%s]' % fshow(f) for f in self.idx), locstr(self.ins.loc if self.ins else None), self.one)

def fadd(f, g, s=1):
    r = dict(f)
    for k, v in g.items():
        r[k] = r.get(k, 0) + s*v
        if r[k] == 0: del r[k]
    return r
def fmul(f, c): return {k: v*c for k, v in f.items()} if c else {}
def fkey(f): return tuple(sorted(((repr(k), v) for k, v in f.items())))
def _short(x):
    import re
    s = str(x)
    return s if len(s) < 60 else re.sub(r'[^A-Za-z0-9_.*/%+-]+', ' ', s)[:60] + '~%x' % (hash(s) & 0xfff)
def fshow(f):
    return ' + '.join(('%s' % v if k == 1 else ('%s*' % v if v != 1 else '') + '.'.join(_short(x) for x in k)) for k, v in sorted(f.items(), key=repr)) or '0'
OWN = ('tid', 'tidU', 'tblk', 'inj', 'for', 'part', 'pb', 'pe', 'blk', 'seed', 'tick', 'tab')
def overlapping(f):
    """positions of a part that extends beyond its end: shared with the neighbour"""
    return any(k != 1 and k[0] == 'part' and len(k) == 4 and k[3] > k[2] for k in f)
def own(f): return {k: v for k, v in f.items() if k != 1 and k[0] in OWN}
def rest(f): return {k: v for k, v in f.items() if k == 1 or k[0] not in OWN + ('d', 'rng', 'stride')}
def ranged(f): return any(k != 1 and k[0] == 'rng' for k in f)
def local(f): return any(k != 1 and k[0] == 'd' for k in f)

class RegionAnalysis:
    def __init__(self, par, info):
        self.par = par; self.cfg = par.cfg; self.info = info; self.R = info.R
        self.blocks = info.blocks; self.bset = set(self.blocks)
        self.fmemo = {}; self.kmemo = {}; self.gmemo = {}; self.casroots = set()
        self.single_threaded = False
        self.collect_vars(); self.find_loops(); self.divergence(); self.barriers(); self.roles(); self.phases()
        self.linked()
        self.accesses()
        info.an = self

    # ---------------------------------------------------------------- structure
    def nested(self, ctx):
        """inside a parallel region nested in R"""
        seen = False
        for c in ctx:
            if c is self.R: seen = True
            elif seen and c.kind == 'omp' and c.d == 'parallel': return True
        return False
    def find_loops(self):
        # natural loops of the region
        idom = self.cfg.idom
        self.loops = {}
        for b in self.blocks:
            for s in b.succs:
                if s in self.bset and core.dominates(idom, s, b):
                    body = {s}; st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x)
                        for p in x.preds:
                            if p in self.bset: st.append(p)
                    self.loops.setdefault(s, set()).update(body)
        self.headF = {}
        for L in self.cfg.loops:
            if L.head not in self.bset: continue
            ctx = L.head.ctx
            if self.nested(ctx): continue
            for n, c in enumerate(ctx):
                if c.kind == 'omp' and c.d == 'for':
                    k = [x for x in ctx[n + 1:] if x.kind == 'loop']
                    if L in k[:c.collapse]: self.headF[L.head] = c

    def postdom_region(self, b):
        """blocks controlled by the branch at the end of b"""
        stop = self.par.ipdom.get(b)
        seen = set(); st = [s for s in b.succs if s is not stop]
        while st:
            x = st.pop()
            if x in seen or x is stop or x not in self.bset: continue
            seen.add(x)
            for s in x.succs:
                if s is not stop: st.append(s)
        return seen, stop

    def forks(self, b):
        return b.term is not None and b.term[0] == 'br' and len(set(b.succs)) == 2

    def divergence(self):
        """least fixpoint of 'differs between the threads of the team'"""
        D = self.D = set(); cfgb = self.blocks
        self.divbr = set()
        privmem = self.privmem = set()
        infl = {}
        for b in cfgb:
            if self.forks(b): infl[b] = self.postdom_region(b)
        ch = True
        inside = self.bset
        while ch:
            ch = False
            for b in cfgb:
                for p in b.phis:
                    if p.sv in D: continue
                    if any(o in D for o in p.ops.values()) or (b in self.headF): D.add(p.sv); ch = True
                for i in b.ins:
                    if i.op == 'call' and i.outs:
                        nm = cname(i)
                        if nm in ('omp_get_thread_num',) or nm.startswith(ATOMICS) or nm == '__rdtsc' or 'omp_get_wtime' in nm: dv = True
                        elif nm in ('omp_get_num_threads', 'omp_get_max_threads', 'omp_in_parallel'): dv = False
                        elif self.P_partition(i): dv = True
                        else: dv = any(self.ediv(a) for a in i.args) or (i.this is not None and self.ediv(i.this)) or any(self.ediv(x) for x in (i.refin or {}).values()) or nm in ('malloc', 'operator new[]', 'operator new', '_mm_malloc', 'calloc', 'rand', 'drand48') or nm.split('::')[-1].startswith('allocate') or (self.privptr_args(i))
                        if dv:
                            for o in i.outs:
                                if o not in D: D.add(o); ch = True
                    elif i.outs:
                        for o in i.outs:
                            if o not in D and i.e is not None and self.ediv(i.e): D.add(o); ch = True
                    if i.op == 'set' and i.lv.k != 'var' or i.op == 'set' and not i.outs:
                        v = self.rootvar(i.lv)
                        if v is not None and self.is_private(v) and v not in privmem and (self.ediv(i.e) or self.lvdiv(i.lv)): privmem.add(v); ch = True
                    if i.op == 'call':
                        for a in list(i.args) + ([i.this] if i.this is not None else []):
                            r = self.rootvar(a.a[0]) if a.k in ('addr', 'decay') else None
                            if r is not None and self.is_private(r) and r not in privmem and r not in self.cfg.ssavars and any(self.ediv(x) for x in i.args): privmem.add(r); ch = True
                if b in infl and b not in self.divbr:
                    if b.term[1].k == 'ompcond' and not self.nested(b.ctx) or b.term[1].k != 'ompcond' and self.ediv(b.term[1]):
                        self.divbr.add(b); ch = True
                        reg, stop = infl[b]
                        for x in reg | ({stop} if stop in inside else set()):
                            npred = [q for q in x.preds if q in reg or q is b]
                            if len(npred) >= 2 or x is stop:
                                for p in x.phis:
                                    if p.sv not in D: D.add(p.sv)
                        # a loop left at different times
                        for h, body in self.loops.items():
                            if b in body and any(s not in body for s in b.succs):
                                for p in h.phis: D.add(p.sv)
            # header phis of divergent loops
        self.infl = infl
        self.initprivmem = True

    def P_partition(self, i):
        fn = self.par.P.fns.get(i.callee)
        return fn is not None and is_partition(fn)
    def privptr_args(self, i):
        for a in list(i.args) + ([i.this] if i.this is not None else []):
            if a.k in ('addr', 'decay'):
                r = self.rootvar(a.a[0])
                if r is not None and r in self.privmem: return True
        return False
    def rootvar(self, lv):
        while lv is not None:
            if lv.k == 'var': return lv.a[0]
            if lv.k == 'fld': lv = lv.a[0]; continue
            if lv.k == 'at':
                p = lv.a[0]
                p = strip_casts(p)
                if p.k in ('decay', 'addr'): lv = p.a[0]; continue
                return None
            if lv.k in ('decay', 'addr'): lv = lv.a[0]; continue
            return None
    def is_private(self, v):
        if v.kind in ('static', 'global'): return False
        if v in (x[1] for x in self.R.privs): return True
        return self.R in getattr(v, 'ctx', ())
    def lvdiv(self, lv):
        if lv.k == 'at': return self.ediv(lv.a[0]) or self.ediv(lv.a[1])
        if lv.k == 'fld': return self.lvdiv(lv.a[0])
        return False
    def ediv(self, e):
        for x in e.walk():
            if x.k == 'ssa' and x.a[0] in self.D: return True
            if x.k == 'ld':
                v = self.rootvar(x.a[0])
                if v is not None and v in self.privmem: return True
            if x.k == 'ld' and x.a[0].k == 'var' and x.a[0].a[0] in self.privmem: return True
        return False

    # ---------------------------------------------------------------- barriers
    def isbar(self, i):
        if self.nested(i.ctx): return None
        if i.op == 'barrier': return 'omp'
        if i.op == 'call' and is_wait(cname(i)): return 'synk'
        return None
    def barriers(self):
        self.bars = []
        for b in self.blocks:
            for i in b.ins:
                k = self.isbar(i)
                if k: self.bars.append((b, i, k))
        self.badbars = []        # (barrier, reason)
        for b, i, k in self.bars:
            encl = [c for c in i.ctx[i.ctx.index(self.R) + 1:] if c.kind == 'omp' and c.d in ('for', 'single', 'master', 'masked', 'critical', 'atomic')] if self.R in i.ctx else []
            for c in encl: self.badbars.append((i, k, 'inside an omp %s construct' % c.d, None))
            if encl: continue
            for d in self.divbr:
                reg, stop = self.infl[d]
                if b in reg: self.badbars.append((i, k, 'under a condition that differs between threads', d))

    # ---------------------------------------------------------------- roles
    def is_tid(self, e):
        f = self.form(e)
        return f == {('tid',): 1}
    def rolecond(self, b):
        """(role when true, role when false): role 'z' = one designated thread only"""
        if b.term is None or b.term[0] != 'br': return None
        e = strip_casts(resolve(b.term[1]))
        if e.k == 'bin' and e.a[0] in ('==', '!='):
            f = fadd(self.form(e.a[1]), self.form(e.a[2]), -1)
            if ('tid',) in f and abs(f[('tid',)]) == 1:
                r = {k: -v*f[('tid',)] for k, v in f.items() if k != ('tid',)}
                if all(k == 1 or k[0] == 'u' for k in r):
                    return (fkey(r), e.a[0] == '==')
        if e.k == 'un' and e.a[0] == '!' or e.k == 'ssa' or e.k == 'bin' and e.a[0] in ('<', '>', '<=', '>='):
            neg = False; x = e
            while x.k == 'un' and x.a[0] == '!': neg = not neg; x = strip_casts(x.a[1])
            if self.form(x) == {('tid',): 1}: return (fkey({}), neg)
            if x.k == 'bin' and x.a[0] in ('<', '>', '<=', '>='):
                f = fadd(self.form(x.a[1]), self.form(x.a[2]), -1)
                op = x.a[0]
                if f.get(('tid',)) == -1: f = fmul(f, -1); op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
                if f in ({('tid',): 1}, {('tid',): 1, 1: -1}):
                    c = f.get(1, 0)
                    if (op, c) in (('>', 0), ('>=', -1)): return (fkey({}), neg)
                    if (op, c) in (('<', -1), ('<=', 0)): return (fkey({}), not neg)
        return None
    def roles(self):
        """block -> key of the only thread that executes it (None: any)"""
        self.role = {}
        idom = self.cfg.idom
        edges = []
        for b in self.blocks:
            if not self.forks(b): continue
            if b.term[1].k == 'ompcond':
                if self.nested(b.ctx): continue
                d, cid = b.term[1].a[0], b.term[1].a[1]
                edges.append((b, b.term[2], (d, cid) if d == 'single' else ('t', fkey({}))))
            else:
                r = self.rolecond(b)
                if r: edges.append((b, b.term[2] if r[1] else b.term[3], ('t', r[0]))); edges.append((b, b.term[3] if r[1] else b.term[2], ('nt', r[0])))
        for b in self.blocks: self.role[b] = set()
        for src, dst, key in edges:
            if len(dst.preds) == 1:
                for b in self.blocks:
                    if core.dominates(idom, dst, b): self.role[b].add(key)

    # ---------------------------------------------------------------- phases
    def phases(self):
        """for each block: the barriers (or the region entry) from which its start is reachable without another barrier"""
        IN = {b: set() for b in self.blocks}; OUT = {}
        barin = {}
        for b, i, k in self.bars: barin.setdefault(b, []).append(i)
        def out(b):
            return {barin[b][-1]} if b in barin else IN[b]
        IN[self.R.first] = {'entry'}
        ch = True
        while ch:
            ch = False
            for b in self.blocks:
                n = set(IN[b])
                for p in b.preds:
                    if p in self.bset: n |= out(p)
                if n != IN[b]: IN[b] = n; ch = True
        self.phin = IN; self.barin = barin
    def starts(self, b, pos):
        r = self.phin[b]
        for i in self.barin.get(b, ()):
            if i.idx < pos: r = {i}
        return frozenset(r)

    # ---------------------------------------------------------------- forms
    def loopstable(self, sv):
        """value does not change within a phase (no barrier-free loop redefines it)"""
        b = sv.block
        if sv.kind != 'phi' or b not in self.loops: return True
        body = self.loops[b]
        for x, i, k in self.bars:
            if x in body: return True
        return False
    def linked(self):
        """arrays updated with compare-and-swap: their elements are not in one-to-one correspondence with the indices"""
        out = set()
        for b in self.blocks:
            for i in b.ins:
                if i.op == 'call' and 'compare_and_swap' in cname(i): out.add(self.ptr(i.args[0], Int(0))[0])
        self.casroots = out
        self.fmemo.clear(); self.kmemo.clear(); self.gmemo.clear()
    def mutated(self):
        if 'mut' not in self.gmemo:
            m = self.gmemo['mut'] = set()
            for b in self.blocks:
                for i in b.ins:
                    if i.op == 'call' and i.this is not None and cname(i).split('::')[-1].split('<')[0] in ('push_back', 'resize', 'clear', 'insert', 'assign', 'pop_back', 'emplace_back', 'erase', 'operator=', 'swap'):
                        m.add(self.lvptr(i.this)[0])
        return self.gmemo['mut']
    def sform(self, sv):
        if sv in self.fmemo: return self.fmemo[sv]
        self.fmemo[sv] = {('u', sv.uid): 1} if sv not in self.D else {('d', sv.uid): 1}
        f = self._sform(sv)
        self.fmemo[sv] = f
        return f
    def _sform(self, sv):
        inreg = sv.block is not None and sv.block in self.bset
        if sv.kind == 'set': return self.form(sv.d.e)
        if sv.kind in ('callret', 'callout'):
            nm = cname(sv.d)
            if nm == 'omp_get_thread_num' and inreg: return {('tid',): 1}
            if nm == 'omp_get_num_threads' and inreg: return {('u', 'nthreads'): 1}
            if nm.startswith(ATOMICS) and inreg: return {('tick', sv.uid): 1} if 'fetch' in nm or 'add' in nm else {('d', sv.uid): 1}
            if inreg and self.P_partition(sv.d):
                n = [o for o in sv.d.outs if o.kind == 'callout'].index(sv)
                k = (sv.d.callee, tuple(fkey(self.form(a)) for a in sv.d.args if not (a.k == 'addr' and a.a[0].k == 'var')))
                return {('pb', k): 1} if n == 0 else {('pe', k): 1}
            if sv.kind == 'callret' and nm.split('::')[-1].split('<')[0] == 'size' and sv.d.this is not None and not sv.d.args:
                r, idx = self.lvptr(sv.d.this)
                if not any(idx) and not self.rootpriv(r) and r not in self.mutated(): return {('u', 'size', r): 1}
            if sv in self.D: return {('d', sv.uid): 1}
            return {('u', sv.uid): 1}
        if sv not in self.D:
            if sv.kind == 'phi' and sv.block in self.loops and not self.loopstable(sv):
                return {('un', sv.uid): 1}
            return {('u', sv.uid): 1}
        if sv.kind == 'phi':
            p = sv.d; b = p.block
            if b in self.headF: return {('for', self.headF[b].id, b.id): 1}
            if b in self.loops:
                body = self.loops[b]
                init = [o for q, o in p.ops.items() if q not in body]
                if len(init) == 1:
                    f = self.sform(init[0])
                    step = [o for q, o in p.ops.items() if q in body]
                    if not self.ediv(E('ssa', (init[0],))) and not any(k[0] in OWN for k in f if k != 1):
                        return fadd(f, {('d', sv.uid): 1})
                    o = own(f)
                    if any(k[0] in ('seed', 'tick') for k in o): return fadd(f, {('d', sv.uid): 1})
                    # an induction variable that starts at this thread's own begin (or runs down from its end)
                    ow = own(f)
                    if len(ow) == 1 and list(ow)[0][0] in ('pb', 'pe') and list(ow.values()) == [1] and not local(f):
                        k = list(ow)[0]; c = f.get(1, 0)
                        g = {x: v for x, v in f.items() if x != k and x != 1}
                        if not self.blocked(b, sv, f, step): return fadd(f, {('d', sv.uid): 1})
                        lo, hi = (c, self.upper(b, sv, k, g)) if k[0] == 'pb' else (0, c + 1)
                        return fadd({('part', k[1], lo, hi): 1}, g)
                    if not self.blocked(b, sv, f, step): return fadd(f, {('d', sv.uid): 1})
                    if len(ow) == 1 and list(ow)[0][0] == 'tidU' and list(ow.values()) == [1] and not local(f):
                        k = list(ow)[0]; e = self.extent(b, sv, f, {k: 1})
                        if e is not None:
                            n = dict(k[1]); g = {x: v for x, v in f.items() if x != k and x != 1}
                            if fkey({x: v for x, v in e.items() if x != 1}) == k[1]: return fadd({('tblk', k[1], f.get(1, 0), e.get(1, 0)): 1}, g)
                    return {('part', fkey(f), 0, 0): 1}
            fs = []
            for o in p.ops.values():
                if o is sv: continue
                g = self.sform(o)
                if g not in fs: fs.append(g)
            if len(fs) == 1: return fs[0]
            if b not in self.loops and len(fs) == 2:
                # thread 0 starts at a constant, the others at a searched position: begin of a part
                return {('pb', ('phi', tuple(sorted(fkey(g) for g in fs)))): 1}
        return {('d', sv.uid): 1}
    def bound(self, b, sv):
        """(operator, bound) of the loop's exit test on sv"""
        if not (b.term and b.term[0] == 'br'): return None
        c = strip_casts(b.term[1])
        if c.k != 'bin' or c.a[0] not in ('<', '<=', '!='): return None
        x = strip_casts(resolve(strip_casts(c.a[1])))
        if x.k != 'ssa' or x.a[0] is not sv: return None
        return c.a[0], c.a[2]
    def extent(self, b, sv, f, k):
        """end of the loop minus the thread's offset k"""
        bd = self.bound(b, sv)
        if bd is None: return None
        r = fadd(self.form(bd[1]), k, -1)
        if bd[0] == '<=': r = fadd(r, {1: 1})
        return r if all(x == 1 or x[0] == 'u' for x in r) else None
    def blocked(self, b, sv, f, step):
        """False if the iterations of a loop that starts at a thread-dependent position provably
        overlap those of other threads"""
        ow = own(f)
        if len(ow) != 1: return True
        (k, v), = ow.items()
        if k == ('tid',):
            st = {fkey(fadd(self.form(o.d.e), {}, 1)) for o in step if o.kind == 'set'}
            for o in step:
                if o.kind != 'set': return True
                e = strip_casts(o.d.e)
                if e.k == 'bin' and e.a[0] == '+':
                    x = self.form(e.a[2])
                    if set(x) <= {1} and self.bound(b, sv) is not None and not own(self.form(self.bound(b, sv)[1])): return False
            return True
        if k[0] == 'tidU':
            bd = self.bound(b, sv)
            if bd is None: return True
            r = fadd(self.form(bd[1]), {k: v}, -1)
            if bd[0] == '<=': r = fadd(r, {1: 1})
            if all(x == 1 or x[0] == 'u' for x in r):
                n = {x: y for x, y in r.items() if x != 1}
                if not own(self.form(bd[1])): return False
                if fkey(n) == k[1] and r.get(1, 0) > f.get(1, 0) + (0 if f.get(1, 0) <= 0 else 0) and r.get(1, 0) > max(0, f.get(1, 0)): return False
            return True
        if k[0] == 'pb' and k[1] and k[1][0] == 'bin' and v == 1:
            bd = self.bound(b, sv)
            if bd is None: return True
            e = strip_casts(resolve(bd[1]))
            plus = 1 if bd[0] == '<=' else 0
            while e.k == 'bin' and e.a[0] in '+-' and strip_casts(e.a[2]).k == 'int':
                plus += strip_casts(e.a[2]).a[0]*(1 if e.a[0] == '+' else -1); e = strip_casts(resolve(e.a[1]))
            fs = [self.form(x) for x in e.a[1:]] if e.k == 'bin' and e.a[0] == 'min' else [self.form(e)]
            us = [x for x in k[1][2]]
            low = 0
            if k[1][1] == 'max':          # max(begin of the block, L): the end must not start from it
                for x in list(us):
                    y = dict(x)
                    if len(x) == 1 and x[0][0] == repr(1): low = max(low, x[0][1])
                us = [z for x in us for z in self.innermin(x)] + us
            if not any(own(g) for g in fs): return False          # ends where every thread ends
            c0 = f.get(1, 0)
            for g in fs:
                for start in ({k: 1}, None):
                    if start is None:
                        t = [x for x in own(g) if x[0] == 'tidU']
                        if len(t) != 1 or own(g) != {t[0]: 1}: continue
                        start = {t[0]: 1}
                    d = fadd(g, start, -1)
                    n = {x: y for x, y in d.items() if x != 1}
                    if any(x[0] != 'u' for x in n): continue
                    if fkey({('tidU', fkey(n)): 1}) in us and d.get(1, 0) + plus + (low if k in start else 0) > max(0, c0): return False
            return True
        return True
    def innermin(self, x):
        import ast
        if len(x) != 1 or x[0][1] != 1: return []
        try: y = ast.literal_eval(x[0][0])
        except Exception: return []
        if isinstance(y, tuple) and y[0] == 'pb' and y[1] and y[1][0] == 'bin' and y[1][1] == 'min': return list(y[1][2])
        return []
    def upper(self, b, sv, k, g):
        """by how much the loop's end exceeds the end of the thread's part"""
        if not (b.term and b.term[0] == 'br'): return 0
        c = strip_casts(b.term[1])
        if c.k != 'bin' or c.a[0] not in ('<', '<=', '!='): return 0
        x = strip_casts(c.a[1])
        d = 0
        while x.k == 'bin' and x.a[0] == '+' and strip_casts(x.a[2]).k == 'int': d += strip_casts(x.a[2]).a[0]; x = strip_casts(x.a[1])
        if x.k != 'ssa' or x.a[0] is not sv: return 0
        f = fadd(self.form(c.a[2]), {1: d}, -1) if d else self.form(c.a[2])
        r = fadd(fadd(f, {('pe', k[1]): 1}, -1), g, -1)
        if set(r) <= {1}: return r.get(1, 0) + (1 if c.a[0] == '<=' else 0)
        return 0
    def lkey(self, lv):
        """canonical name of a memory location"""
        if lv.k == 'var': return ('v', lv.a[0].uid)
        if lv.k == 'fld': return ('f', self.lkey(lv.a[0]), lv.a[2])
        if lv.k == 'at':
            r, idx = self.ptr(lv.a[0], lv.a[1]); return ('m', r, tuple(fkey(f) for f in idx))
        return ('?', repr(lv))
    def form(self, e):
        e = strip_casts(e)
        if e.k == 'int': return {1: e.a[0]} if e.a[0] else {}
        if e.k == 'ssa': return self.sform(e.a[0])
        if e.k == 'tparm': return self.form(e.a[1])
        if e.k == 'un' and e.a[0] == '-': return fmul(self.form(e.a[1]), -1)
        if e.k == 'bin' and e.a[0] == '*':
            a, b = self.form(e.a[1]), self.form(e.a[2])
            if set(a) <= {1}: return fmul(b, a.get(1, 0))
            if set(b) <= {1}: return fmul(a, b.get(1, 0))
            if not any(k != 1 and k[0] == 'u' for k in b) or any(k != 1 and k[0] != 'u' for k in b): a, b = b, a
            # b uniform?
            if all(k == 1 or k[0] == 'u' for k in b):
                r = {}
                for k, v in a.items():
                    if k == 1: r = fadd(r, fmul(b, v))
                    elif k == ('tid',): r = fadd(r, {('tidU', fkey(b)): v})
                    elif k[0] == 'u': r = fadd(r, {('u', 'mul', tuple(sorted((repr(k), repr(fkey(b)))))): v})
                    elif k[0] == 'for': r = fadd(r, {('for',) + k[1:] + (fkey(b),): v})
                    elif k[0] in OWN: r = fadd(r, {('blk', k, fkey(b)): v} if k[0] in ('part', 'pb', 'pe') else {('seed', ((repr(k), v),)): 1})
                    else: r = fadd(r, {('stride', repr(k), fkey(b)): v} if k[0] != 'un' else {('un', 'mul', repr(k), fkey(b)): v})
                return r
            return {('d', 'mul', repr(fkey(a)), repr(fkey(b))): 1}
        if e.k == 'bin' and e.a[0] in ('/', '%', '<<', '>>', '&'):
            g = self.form(e.a[2])
            if set(g) <= {1}:
                c = g.get(1, 0)
                if e.a[0] == '/' and c == 1: return self.form(e.a[1])
                if e.a[0] == '%' and c == 1: return {}
                f = self.form(e.a[1])
                if set(f) <= {1}:
                    v = f.get(1, 0)
                    if e.a[0] == '<<': v = v << c
                    elif e.a[0] == '>>': v = v >> c
                    elif e.a[0] == '&': v = v & c
                    elif c and v >= 0: v = v // c if e.a[0] == '/' else v % c
                    else: v = None
                    if v is not None: return {1: v} if v else {}
                if e.a[0] in ('<<', '>>') and c == 0: return f
        if e.k == 'sizeof' and isinstance(e.a[0], int): return {1: e.a[0]}
        if e.k == 'bin' and e.a[0] == '+':
            x, y = strip_casts(resolve(e.a[1])), strip_casts(resolve(e.a[2]))
            for a, b in ((x, y), (y, x)):
                # x%p*q + x/p: a bijection of [0, p*q)
                if a.k == 'bin' and a.a[0] == '*' and b.k == 'bin' and b.a[0] == '/':
                    r = strip_casts(resolve(a.a[1]))
                    if r.k == 'bin' and r.a[0] == '%':
                        fx, fp = self.form(r.a[1]), self.form(r.a[2])
                        if fx == self.form(b.a[1]) and fp == self.form(b.a[2]):
                            q = self.form(a.a[2])
                            if not own(fp) and not own(q): return {('inj', fkey(fp), fkey(q), frozenset(fx.items())): 1}
        if e.k == 'bin' and e.a[0] in ('+', '-'):
            return fadd(self.form(e.a[1]), self.form(e.a[2]), 1 if e.a[0] == '+' else -1)
        if e.k == 'ld':
            lv = e.a[0]
            if lv.k == 'at':
                root, idx = self.ptr(lv.a[0], lv.a[1])
                if any(overlapping(f) for f in idx): return {('d', 'col', repr(root), tuple(fkey(f) for f in idx)): 1}
                if any(own(f) for f in idx):
                    if any(local(f) for f in idx):
                        if self.multivalued(root) or not all(local(f) for f in idx if own(f) or local(f)): return {('d', 'col', repr(root), tuple(fkey(f) for f in idx)): 1}
                        return {('tab', repr(root), tuple(fkey(own(f)) for f in idx if own(f))): 1}
                    if self.multivalued(root): return {('d', 'col', repr(root), tuple(fkey(f) for f in idx)): 1}
                    return {('seed', tuple(fkey(own(f)) for f in idx if own(f))): 1}
            if self.ediv(e): return {('d', repr(self.lkey(lv))): 1}
            return {('u', 'ld', self.lkey(lv)): 1}
        if e.k == 'cond':
            m = self.minmax(e)
            if m is not None: return self.form(m)
        if e.k in ('cond',) or (e.k == 'bin' and e.a[0] in ('min', 'max')) or e.k == 'bin':
            fs = [self.form(x) for x in e.a if isinstance(x, E)]
            bad = self.ediv(e)
            key = (e.k, e.a[0] if isinstance(e.a[0], str) else '', tuple(fkey(f) for f in fs))
            unst = any(k != 1 and k[0] == 'un' for f in fs for k in f)
            if not bad: return {('un' if unst else 'u', key): 1}
            ow = any(own(f) for f in fs)
            if ow and not any(local(f) or any(k != 1 and k[0] in ('un',) for k in f) for f in fs) and e.k == 'bin' and e.a[0] in ('%', '/', '>>', '&', '<<') and not (e.a[0] == '/' and any(k != 1 and k[0] in ('tid', 'tidU') for k in fs[0])): return {('seed', tuple(fkey(own(f)) for f in fs if own(f))): 1}
            if e.k == 'bin' and e.a[0] in ('min', 'max'): return {('pb', key): 1} if any(own(f) for f in fs) else {('d', key): 1}
            if e.k == 'bin' and e.a[0] == '/' and len(fs) == 2 and any(k != 1 and k[0] in ('tid', 'tidU') for k in fs[0]): return {('pb', key): 1}
            return {('d', key): 1}
        if e.k in ('un', 'sizeof', 'undef', 'fn', 'float'):
            return {('d', repr(e)): 1} if self.ediv(e) else {('u', repr(e)): 1}
        return {('d', repr(e)): 1} if self.ediv(e) else {('u', repr(e.key) if False else repr(e)): 1}

    def minmax(self, e):
        """a < b ? a : b is min(a, b)"""
        c = strip_casts(resolve(e.a[0], 2))
        if c.k != 'bin' or c.a[0] not in ('<', '<=', '>', '>='): return None
        if any(x.ty is not None and x.ty.isptr for x in e.a[1:]): return None
        l, r = fkey(self.form(c.a[1])), fkey(self.form(c.a[2]))
        t, f = fkey(self.form(e.a[1])), fkey(self.form(e.a[2]))
        if (t, f) == (l, r): op = 'min' if c.a[0] in ('<', '<=') else 'max'
        elif (t, f) == (r, l): op = 'max' if c.a[0] in ('<', '<=') else 'min'
        else: return None
        x, y = (c.a[1], c.a[2])
        if x.k == 'int' : x, y = y, x
        return E('bin', (op, x, y), e.ty)
    def multivalued(self, root):
        """a table in which an element can occur several times (column indices)"""
        return root in self.casroots or re.search('(col|row)_?i(n?d)|neighbo|adj', str(self.rootname(root)).lower()) is not None
    def rootname(self, root):
        while isinstance(root, tuple):
            if root[0] == 'f': return root[2]
            if root[0] == 'v': return self.varof[root[1]].name if root[1] in self.varof else root[1]
            if root[0] == 'ssa': return self.svof[root[1]].var.name if root[1] in self.svof else root[1]
            if root[0] == '*': root = root[1]; continue
            return root[-1]
        return root
    def ptr(self, p, i):
        """(root, [index forms]) of the element p[i]; a pointer loaded from memory adds a level"""
        f = self.form(i)
        p = strip_casts(p)
        while True:
            if p.k == 'bin' and p.a[0] in ('+', '-'):
                a, b = p.a[1], p.a[2]
                if p.a[0] == '+' and b.ty is not None and b.ty.isptr and not (a.ty is not None and a.ty.isptr): a, b = b, a
                f = fadd(f, self.form(b), 1 if p.a[0] == '+' else -1); p = strip_casts(a); continue
            if p.k == 'ssa':
                sv = p.a[0]
                if sv.kind == 'set':
                    if self.carved(sv): return ('ssa', sv.uid), [f]
                    p = strip_casts(sv.d.e); continue
                if sv.kind == 'phi':
                    q = self.phiptr(sv)
                    if q is not None:
                        r, idx = q
                        return r, idx[:-1] + [fadd(idx[-1], f)]
                if sv.kind == 'callret' and cname(sv.d).endswith('operator[]') and sv.d.this is not None:
                    r, idx = self.lvptr(sv.d.this)
                    return r, idx + [self.form(sv.d.args[0])] + ([f] if f else [])
                return ('ssa', sv.uid), [f]
            break
        if p.k == 'addr' or p.k == 'decay':
            r, idx = self.lv(p.a[0])
            if p.k == 'addr': 
                if not f: return r, idx
                if idx and p.a[0].k == 'at': return r, idx[:-1] + [fadd(idx[-1], f)]
            return r, idx + [f]
        if p.k == 'ld':
            r, idx = self.lv(p.a[0])
            return ('*', r), idx + [f]
        if p.k == 'cond' and any(strip_casts(x).k in ('null', 'int') for x in p.a[1:]):
            for x in p.a[1:]:
                if strip_casts(x).k not in ('null', 'int'): return self.ptr(x, i) if not f else (lambda q: (q[0], q[1][:-1] + [fadd(q[1][-1], f)]))(self.ptr(x, Int(0)))
        if p.k == 'cond':
            c = [self.ptr(x, Int(0)) for x in p.a[1:]]
            if c[0][0] == c[1][0]: return c[0][0], [{('d', repr(p)): 1} if self.ediv(p) else {('un', repr(p)): 1}] * len(c[0][1])
        return ('e', repr(p)), [f]
    def carved(self, sv):
        """a sub-array cut out of a scratch buffer before the region: an array of its own"""
        if sv.block in self.bset: return False
        e = strip_casts(sv.d.e)
        if e.k != 'bin' or e.a[0] != '+' or e.a[1].ty is None or not e.a[1].ty.isptr: return False
        o = self.form(e.a[2])
        if set(o) <= {1} and abs(o.get(1, 0)) < 256 or any(k != 1 and (k[0] != 'u' or 'base' in repr(k).lower()) for k in o): return False
        x = e; n = 0
        while n < 40:
            n += 1
            if x.k == 'bin' and x.a[0] in '+-': x = strip_casts(x.a[1]); continue
            if x.k == 'ssa' and x.a[0].kind == 'set': x = strip_casts(x.a[0].d.e); continue
            break
        return x.k == 'ssa' and x.a[0].kind in ('callret', 'phi')
    def lvptr(self, this):
        this = strip_casts(this)
        if this.k == 'addr': return self.lv(this.a[0])
        r, idx = self.ptr(this, Int(0)); return r, idx
    def lv(self, lv):
        if lv.k == 'var':
            i = self.refcall.get(lv.a[0].uid)
            if i is not None:
                r, idx = self.lvptr(i.this); return r, idx + [self.form(i.args[0])]
            return ('v', lv.a[0].uid), []
        if lv.k == 'fld':
            r, idx = self.lv(lv.a[0]); return ('f', r, lv.a[2]), idx
        if lv.k == 'at': return self.ptr(lv.a[0], lv.a[1])
        if lv.k == 'ssa':
            return self.ptr(lv, Int(0))
        return ('?', repr(lv)), []
    def phiptr(self, sv):
        """root and index of a pointer that moves in a loop or is chosen among equals"""
        if ('p', sv) in self.kmemo: return self.kmemo['p', sv]
        self.kmemo['p', sv] = None
        p = sv.d; b = p.block; res = None
        if b in self.loops:
            body = self.loops[b]
            init = [o for q, o in p.ops.items() if q not in body]
            if len(init) == 1:
                r, idx = self.ptr(E('ssa', (init[0],)), Int(0))
                tag = 'd' if sv in self.D else 'un'
                res = (r, idx[:-1] + [fadd(idx[-1], {(tag, sv.uid): 1})])
        else:
            rs = []
            for o in p.ops.values():
                r, idx = self.ptr(E('ssa', (o,)), Int(0))
                rs.append((r, idx))
            if rs and all(x[0] == rs[0][0] for x in rs):
                if all([fkey(f) for f in x[1]] == [fkey(f) for f in rs[0][1]] for x in rs): res = rs[0]
                elif len({len(x[1]) for x in rs}) == 1:
                    tag = 'd' if sv in self.D else 'u'
                    out = []
                    for n in range(len(rs[0][1])):
                        ks = {fkey(x[1][n]) for x in rs}
                        out.append(rs[0][1][n] if len(ks) == 1 else {(tag, sv.uid, n): 1})
                    res = (rs[0][0], out)
            else:
                # e.g. NULL or an array
                nn = []
                for o, x in zip(p.ops.values(), rs):
                    e = strip_casts(resolve(E('ssa', (o,))))
                    if e.k in ('null',) or e.k == 'int': continue
                    if x not in nn: nn.append(x)
                if len(nn) == 1: res = nn[0]
        self.kmemo['p', sv] = res
        return res

    # ---------------------------------------------------------------- accesses
    def rootpriv(self, root):
        while isinstance(root, tuple) and root[0] in ('f',): root = root[1]
        if root[0] == 'v':
            v = self.varof.get(root[1])
            return v is not None and self.is_private(v)
        if root[0] == 'ssa':
            return self.svof.get(root[1]) is not None and self.svof[root[1]].block in self.bset and self.svof[root[1]].kind in ('callret', 'decl', 'undef') or self.svof.get(root[1]) is not None and self.svof[root[1]].kind == 'phi' and self.svof[root[1]].block in self.bset
        if root[0] == '*': return self.rootpriv(root[1])
        if root[0] == '?': return True
        return False
    def collect_vars(self):
        self.varof = {}; self.svof = {}
        def w(e):
            for x in e.walk():
                if x.k == 'var': self.varof[x.a[0].uid] = x.a[0]
                if x.k == 'ssa': self.svof[x.a[0].uid] = x.a[0]
        for b in self.cfg.blocks:
            for i in b.ins:
                for e in i.exprs(): w(e)
                if i.dst is not None: w(i.dst)
                for o in i.outs or (): self.svof[o.uid] = o
            for p in b.phis: self.svof[p.sv.uid] = p.sv
            if b.term and b.term[0] in ('br', 'ret') and b.term[1] is not None: w(b.term[1])
        # references returned by operator[] of a container: the element itself
        self.refcall = {}; n = {}
        for b in self.cfg.blocks:
            for i in b.ins:
                if i.op in ('call', 'set', 'decl') and i.dst is not None and i.dst.k == 'var': n[i.dst.a[0]] = n.get(i.dst.a[0], 0) + 1
                if i.op == 'call' and i.dst is not None and i.dst.k == 'var' and not i.outs and i.dst.a[0].kind == 'temp' and cname(i).split('::')[-1].startswith('operator[]') and i.this is not None and len(i.args) == 1:
                    self.refcall[i.dst.a[0].uid] = i
        for v in n:
            if n[v] > 1: self.refcall.pop(v.uid, None)
    def accesses(self):
        self.collect_vars()
        A = self.acc = []
        for b in self.blocks:
            for i in b.ins:
                pos = i.idx
                if i.op == 'set':
                    self.reads(i.e, i, b, pos)
                    if not i.outs: self.write(i.lv, i, b, pos, i.e)
                    if i.lv.k != 'var': self.lvreads(i.lv, i, b, pos)
                elif i.op == 'call': self.callacc(i, b, pos)
            if b.term and b.term[0] in ('br', 'ret') and b.term[1] is not None and b.term[1].k != 'ompcond':
                pos = len(b.ins); self.reads(b.term[1], None, b, pos)
    def add(self, kind, root, idx, ins, b, pos, val=None, atomic=False, vol=False, rng=False):
        if self.rootpriv(root): return
        if idx and not all(own(f) for f in idx):
            eq = self.equalities(b)
            if eq: idx = [f if own(f) else next((q for p, q in eq if p == f), f) for f in idx]
        a = Acc(); a.kind = kind; a.root = root; a.idx = idx; a.ins = ins; a.block = b; a.pos = pos; a.val = val; a.atomic = atomic; a.vol = vol; a.whole = False
        a.range = rng
        ctx = ins.ctx if ins is not None else b.ctx
        a.crit = any(c.kind == 'omp' and c.d in ('critical',) for c in ctx)
        if any(c.kind == 'omp' and c.d == 'atomic' for c in ctx): a.atomic = True
        a.one = self.role.get(b, set())
        a.starts = self.starts(b, pos)
        self.acc.append(a)
    def isvol(self, lv):
        t = lv.ty
        return bool(t is not None and t.vol) or (lv.k == 'at' and lv.a[0].ty is not None and lv.a[0].ty.p is not None and lv.a[0].ty.p.vol)
    def reads(self, e, ins, b, pos):
        for x in e.walk():
            if x.k == 'ld' and x.a[0].k in ('var', 'at', 'fld'):
                r, idx = self.lv(x.a[0])
                self.add('r', r, idx, ins, b, pos, vol=self.isvol(x.a[0]))
    def lvreads(self, lv, ins, b, pos):
        if lv.k == 'at': self.reads(lv.a[0], ins, b, pos); self.reads(lv.a[1], ins, b, pos)
        elif lv.k == 'fld': self.lvreads(lv.a[0], ins, b, pos)
    def write(self, lv, ins, b, pos, val=None):
        if lv.k == 'var' and self.is_private(lv.a[0]) and lv.a[0].uid not in self.refcall: return
        r, idx = self.lv(lv)
        self.add('w', r, idx, ins, b, pos, val=val, vol=self.isvol(lv))
    def callacc(self, i, b, pos):
        nm = cname(i); short = nm.split('::')[-1].split('<')[0]
        for a in i.args: self.reads(a, i, b, pos)
        if i.this is not None: self.reads(i.this, i, b, pos)
        if i.dst is not None and not i.outs and i.dst.k == 'var' and i.dst.a[0].uid not in self.refcall and not self.is_private(i.dst.a[0]): self.write(i.dst, i, b, pos)
        if is_wait(nm) or 'Barrier' in nm or 'LoadImba' in nm or 'MemoryPool' in nm: return
        if short.startswith(ATOMICS):
            r, idx = self.ptr(i.args[0], Int(0))
            self.add('w', r, idx, i, b, pos, atomic=True); return
        if short.startswith('operator[]'): return
        if short in ('size', 'begin', 'end', 'empty', 'back', 'front', 'data'):
            if i.this is not None:
                r, idx = self.lvptr(i.this)
                self.add('r', r, idx, i, b, pos)
                self.acc and setattr(self.acc[-1], 'whole', self.acc[-1].ins is i)
            return
        fn = self.par.P.fns.get(i.callee)
        def isp(a):
            return a.ty is not None and a.ty.isptr or a.k in ('addr', 'decay')
        def constp(a, n):
            t = a.ty
            y = strip_casts(a)
            if t is not None and t.p is not None and t.p.const: return True
            return core.constref(a)
        if short in ('memcpy', 'memmove', 'copy', 'memset', 'sort', 'fill', 'stable_sort', 'copy_n', 'fill_n', 'transform'):
            dst = {'copy': 2, 'copy_n': 2}.get(short, 0)
            for n, a in enumerate(i.args):
                if not isp(a): continue
                r, idx = self.ptr(a, Int(0))
                if short in ('sort', 'fill', 'stable_sort') and n == 1: continue
                if short == 'copy' and n == 1: continue
                k = 'w' if n == dst else 'r'
                # length of the range: own when the length is
                idx = idx[:-1] + [fadd(idx[-1], {('rng', pos, b.id): 1})] if idx else [{('rng', pos, b.id): 1}]
                self.add(k, r, idx, i, b, pos, rng=True)
            return
        if i.this is not None and not i.x.get('dtor'):
            # method of a standard object
            if fn is None or not fn.d.get('const'):
                r, idx = self.lvptr(i.this)
                self.add('w' if short in ('push_back', 'resize', 'clear', 'insert', 'assign', 'reserve', 'pop_back', 'emplace_back', 'erase', 'operator=', 'operator+=', 'operator<<', 'swap') else 'r', r, idx, i, b, pos)
                if self.acc and self.acc[-1].ins is i: self.acc[-1].whole = True
        if short in READONLY_STD or short.startswith(('printf', 'fprintf')):
            for a in i.args:
                if isp(a) and a.k not in ('str',):
                    r, idx = self.ptr(a, Int(0))
                    if short in ('upper_bound', 'lower_bound') and idx: self.add('r', r, idx[:-1] + [fadd(idx[-1], {('rng', pos, b.id): 1})], i, b, pos, rng=True)
            return
        if nm in ('free', 'operator delete[]', 'operator delete') : return
        if fn is not None and not fn.file.startswith('/'): return       # recursion: the callee's first activation is inlined
        for n, a in enumerate(i.args):
            if a.k == 'addr' and a.a[0].k == 'var' and a.a[0].a[0] in self.cfg.ssavars: continue
            if isp(a) and strip_casts(a).k not in ('str', 'null', 'fn'):
                r, idx = self.ptr(a, Int(0))
                self.add('r' if constp(a, n) else 'w', r, idx, i, b, pos)

    # ---------------------------------------------------------------- conflicts
    def seedset(self, f):
        """the own indices of this thread on which the offsets depend"""
        out = set()
        for k in own(f):
            if k[0] == 'seed': out.add(repr(k[1] if len(k) == 2 else k[-1]))
        return out
    def guards(self, b):
        """(part, excess) facts i > begin + excess that hold at block b"""
        if b in self.gmemo: return self.gmemo[b]
        out = {}
        for x in self.blocks:
            if x is b or not self.forks(x) or x.term[1].k == 'ompcond' or not core.dominates(self.cfg.idom, x, b): continue
            c = strip_casts(resolve(x.term[1], 3))
            if c.k != 'bin' or c.a[0] not in ('<', '>', '<=', '>='): continue
            t, f = x.term[2], x.term[3]
            op = c.a[0]
            if len(t.preds) == 1 and core.dominates(self.cfg.idom, t, b): pass
            elif len(f.preds) == 1 and core.dominates(self.cfg.idom, f, b): op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<'}[op]
            else: continue
            L, R = c.a[1], c.a[2]
            if op in ('<', '<='): L, R = R, L; op = {'<': '>', '<=': '>='}[op]
            fl, fr = self.form(L), self.form(R)
            kp = [k for k in fl if k != 1 and k[0] == 'part' and fl[k] == 1]
            if len(kp) != 1 or kp[0][2:] == (): continue
            d = fadd(fadd(fr, {('pb', kp[0][1]): 1}, -1), {k: v for k, v in fl.items() if k != kp[0]}, -1)
            if set(d) <= {1}:
                lo = d.get(1, 0) + (1 if op == '>' else 0)
                out[kp[0]] = max(out.get(kp[0], -99), lo)
        self.gmemo[b] = out
        return out
    def equalities(self, b):
        """pairs of forms that are equal at block b because of a dominating test; the second one is the thread's own"""
        if ('eq', b) in self.gmemo: return self.gmemo['eq', b]
        out = []
        for x in self.blocks:
            if x is b or not self.forks(x) or x.term[1].k == 'ompcond' or not core.dominates(self.cfg.idom, x, b): continue
            c = strip_casts(resolve(x.term[1], 3))
            if c.k != 'bin' or c.a[0] not in ('==', '!='): continue
            s = x.term[2] if c.a[0] == '==' else x.term[3]
            if len(s.preds) != 1 or not core.dominates(self.cfg.idom, s, b): continue
            fl, fr = self.form(c.a[1]), self.form(c.a[2])
            for p, q in ((fl, fr), (fr, fl)):
                if not own(p) and local(p) and own(q): out.append((p, q))
        self.gmemo['eq', b] = out
        return out
    def interval(self, f, b=None):
        """(partition, low slack, high slack) of an access inside a thread's part [begin, end):
        the position lies in [begin + low, end + high]"""
        o = own(f)
        if len(o) != 1: return None
        (k, v), = o.items()
        if v != 1 or k[0] not in ('part', 'pb', 'pe'): return None
        c = f.get(1, 0)
        if k[0] == 'part':
            lo = k[2]
            if b is not None: lo = max(lo, self.guards(b).get(k, lo))
            return k[1], lo + c, k[3] + c - 1
        if ranged(f): return k[1], c, c - 1
        if k[0] == 'pb': return k[1], c, c - 1
        return k[1], c + 1, c
    def disjoint1(self, f, g, fb=None, gb=None):
        if set(k for k in f if k != 1 and k[0] == 'inj') and set(k for k in g if k != 1 and k[0] == 'inj'):
            kf = [k for k in f if k != 1 and k[0] == 'inj']; kg = [k for k in g if k != 1 and k[0] == 'inj']
            if len(kf) == len(kg) == 1 and kf[0][1:3] == kg[0][1:3] and f[kf[0]] == g[kg[0]] == 1 and \
               {k: v for k, v in f.items() if k != kf[0]} == {k: v for k, v in g.items() if k != kg[0]}:
                return self.disjoint1(dict(kf[0][3]), dict(kg[0][3]))
            return False
        of, og = own(f), own(g)
        r = fadd(rest(f), rest(g), -1)
        for a_, b_ in ((f, g), (g, f)):
            if set(a_) <= {1} and len(own(b_)) == 1 and set(rest(b_)) <= {1} and not local(b_) and not ranged(b_):
                (k, v), = own(b_).items()
                if v == 1 and k[0] in ('part', 'pb') and k[1] and k[1][0] == 'bin' and k[1][1] == 'max' and (k[0] == 'pb' or k[2] >= 0):
                    lows = [dict(x) for x in k[1][2] if len(x) == 1 and x[0][0] == repr(1)]
                    if any(list(x.values())[0] + rest(b_).get(1, 0) > a_.get(1, 0) for x in lows): return True
        tb = [(k, x) for x in (f, g) for k in own(x) if k[0] in ('tblk', 'tidU')]
        if len(of) == len(og) == 1 and len(tb) == 2 and all(own(x)[k] == 1 for k, x in tb) and tb[0][0][1] == tb[1][0][1] and any(k[0] == 'tblk' for k, x in tb) and not local(f) and not local(g) and not ranged(f) and not ranged(g):
            # blocks [U*tid + lo, U*tid + U + hi)
            if not any(k != 1 for k in r):
                iv = []
                for k, x in tb:
                    c = rest(x).get(1, 0)
                    iv.append((k[2] + c, k[3] + c - 1) if k[0] == 'tblk' else (c, None))
                (l1, h1), (l2, h2) = iv
                if h1 is not None and h2 is not None: return h1 < l2 and h2 < l1
                if h1 is None: l1, h1, l2 = l2, h2, l1
                return l2 > h1 and l2 <= l1
        if self.modulo(f, g): return True
        loc = local(f) or local(g)
        const = set(r) <= {1}
        if of and og:
            a, b = self.interval(f, fb), self.interval(g, gb)
            if a is not None and b is not None and not loc:
                return a[0] == b[0] and set(r) <= {1} and a[2] < b[1] and b[2] < a[1]
            tu = {k: v for k, v in of.items() if k[0] == 'tidU'}
            if tu and tu == {k: v for k, v in og.items() if k[0] == 'tidU'} and (of != tu or og != tu):
                of = og = tu
            sf, sg = self.seedset(f), self.seedset(g)
            if any(k[0] == 'tick' for k in of) and any(k[0] == 'tick' for k in og): return True
            if sf and sf == sg: return True if loc or ranged(f) or ranged(g) or len(of) + len(og) > 2 else const and r.get(1, 0) == 0
        if of and of == og:
            ks = list(of)
            c = r.get(1, 0)
            if any(k[0] in ('tidU',) or k[0] == 'for' and len(k) > 3 for k in ks):
                # blocks of U elements per thread: the offsets must not differ by a whole block
                us = {repr(k[1] if k[0] == 'tidU' else k[3]) for k in ks if k[0] == 'tidU' or len(k) > 3}
                nr = fkey({k: v for k, v in r.items() if k != 1}); nr2 = fkey({k: -v for k, v in r.items() if k != 1})
                return repr(nr) not in us and repr(nr2) not in us
            if any(k[0] == 'tab' for k in ks): return const and (loc or r.get(1, 0) == 0)
            if any(k[0] == 'blk' for k in ks): return not any(k != 1 and repr(k) in repr([x[2] for x in ks if x[0] == 'blk']) for k in r)
            m = max(abs(v) for v in of.values())
            if loc or ranged(f) or ranged(g): return m > 1 and const and abs(c) < m
            return const and abs(c) < m
        if not of and not og:
            if loc or ranged(f) or ranged(g): return False
            if not r: return False
            if any(k != 1 and k[0] != 'u' for k in r): return False
            from math import gcd
            g_ = 0
            for k, v in r.items():
                if k != 1: g_ = gcd(g_, abs(v))
            c = r.get(1, 0)
            if g_ == 0: return c != 0
            return c % g_ != 0
        return False
    def forrange(self, k):
        """form of the number of iterations of a worksharing loop that starts at 0"""
        for h, c in self.headF.items():
            if c.id == k[1] and h.id == k[2]:
                for p in h.phis:
                    if self.sform(p.sv) == {k: 1}:
                        bd = self.bound(h, p.sv)
                        init = [o for q, o in p.ops.items() if q not in self.loops.get(h, ())]
                        if bd is None or bd[0] != '<' or len(init) != 1 or self.sform(init[0]): return None
                        return fkey(self.form(bd[1]))
        return None
    def modulo(self, f, g):
        """l + k*U against l' + k'*U for iterations l of [0, U)"""
        kf = [k for k in f if k != 1 and k[0] == 'for' and len(k) == 3]; kg = [k for k in g if k != 1 and k[0] == 'for' and len(k) == 3]
        if len(kf) != 1 or kf != kg or f[kf[0]] != 1 or g[kf[0]] != 1: return False
        U = self.forrange(kf[0])
        if U is None: return False
        for x in (f, g):
            r = {k: v for k, v in x.items() if k != kf[0] and not (k != 1 and k[0] in ('stride', 'blk', 'un', 'u') and self.multiple(k, U))}
            if set(r) - {1}:
                # a remaining multiple of U itself
                if fkey(r) != U and fkey(fmul(r, -1)) != U: return False
            elif r.get(1, 0): return False
        return True
    def multiple(self, k, U):
        if k[0] in ('stride', 'blk'): return k[2] == U
        if k[1] == 'mul': return repr(U) in k[2] if k[0] == 'u' else k[3] == U
        return False
    def one_thread(self, a, b):
        """both accesses are made by the same thread"""
        for k in a.one:
            if k[0] in ('t', 'single') and k in b.one: return True
        return False
    def roles_disjoint(self, a, b): return False
    def mhp(self, a, b):
        return bool(a.starts & b.starts)
    def idempotent(self, W):
        """all writes store the same constant"""
        vals = set()
        for w in W:
            if w.val is None: return False
            v = strip_casts(resolve(w.val))
            if v.k not in ('int', 'null', 'float'): return False
            vals.add(str(v.a[0]) if v.a else '')
        return len(vals) == 1
    def samevalue(self, a, b):
        if a.val is None or b.val is None: return False
        f, g = self.form(a.val), self.form(b.val)
        return f == g and all(k == 1 or k[0] == 'u' for k in f)
    # ---------------------------------------------------------------- accepted idioms
    def invariant(self, e):
        """the expression has one value throughout the region"""
        for x in e.walk():
            if x.k == 'ssa' and x.a[0].block in self.bset and x.a[0].kind != 'set': return False
            if x.k == 'ssa' and x.a[0].block in self.bset and not self.invariant(x.a[0].d.e): return False
            if x.k == 'ld':
                if x.a[0].k not in ('var', 'at', 'fld'): return False
                r, idx = self.lv(x.a[0])
                if r in self.wroots or self.rootpriv(r): return False
        return True
    def reach(self, b):
        if ('r', b) in self.gmemo: return self.gmemo['r', b]
        seen = set(); st = [b]
        while st:
            x = st.pop()
            if x in seen or x not in self.bset: continue
            seen.add(x); st.extend(x.succs)
        self.gmemo['r', b] = seen
        return seen
    def exclusive(self, a, b):
        """only conditions that are the same for all threads at all times decide between the two blocks"""
        if a is b or b in self.reach(a) or a in self.reach(b): return False
        for x in self.blocks:
            if not self.forks(x): continue
            r = self.reach(x)
            if not (a in r and b in r): continue
            if all(a in self.reach(s) and b in self.reach(s) for s in x.succs if s in self.bset): continue
            if x in self.divbr or x.term[1].k == 'ompcond' or not self.invariant(x.term[1]): return False
        return True
    def leaves(self, e, out, depth=0):
        """thread-dependent SSA values an expression is made of; None if it reads memory that the phase writes"""
        for x in e.walk():
            if x.k == 'ld':
                if x.a[0].k not in ('var', 'at', 'fld'): return False
                r, idx = self.lv(x.a[0])
                if r in self.wroots and not self.quiet(r): return False
            if x.k == 'ssa' and x.a[0] in self.D:
                sv = x.a[0]
                if sv.kind == 'set' and depth < 8:
                    if not self.leaves(sv.d.e, out, depth + 1): return False
                else: out.add(sv)
        return True
    def quiet(self, root):
        """nothing writes the array in the current phase"""
        return not any(a.kind == 'w' and a.root == root and a.starts & self.curstarts for a in self.acc)
    def linear(self, e, sv):
        f = self.form(e)
        g = fadd(f, self.sform(sv), -1)
        return all(k == 1 or k[0] == 'u' for k in g)
    def cyclic(self, w, b):
        """element 0 touched by thread 0 and a cyclic distribution that starts at the thread number"""
        if not any(k == ('t', fkey({})) for k in w.one): return False
        for f, g in zip(w.idx, b.idx):
            if set(f) <= {1}:
                o = own(g); r = rest(g)
                if len(o) == 1 and not local(g) and not ranged(g):
                    (k, v), = o.items()
                    if k[0] == 'part' and k[1] == fkey({('tid',): 1}) and set(r) <= {1} and f.get(1, 0) == r.get(1, 0): return True
        return False
    def sweep(self, b):
        """the largest barrier-free loop around b"""
        best = None
        for h, body in self.loops.items():
            if b in body and not any(x in body for x, i, k in self.bars) and (best is None or len(body) > len(self.loops[best])): best = h
        return best
    def spins(self):
        """(header, root) of busy-wait loops: no stores, no calls, exit decided by a volatile load"""
        if 'spins' in self.gmemo: return self.gmemo['spins']
        out = []
        for h, body in self.loops.items():
            if any(i.op not in ('decl', 'set') or i.op == 'set' and not i.outs for x in body for i in x.ins): continue
            roots = set()
            for x in body:
                es = [i.e for i in x.ins if i.op == 'set'] + ([x.term[1]] if x.term and x.term[0] == 'br' and x.term[1].k != 'ompcond' else [])
                for e in es:
                    for y in e.walk():
                        if y.k == 'ld' and y.a[0].k in ('var', 'at', 'fld') and self.isvol(y.a[0]): roots.add(self.lv(y.a[0])[0])
            if len(roots) == 1 and any(s not in body for x in body for s in x.succs): out.append((h, roots.pop(), body))
        self.gmemo['spins'] = out
        return out
    def postdom(self, a, b):
        """b post-dominates a"""
        n = 0
        while a is not None and a != 'exit' and n < 10000:
            if a is b: return True
            a = self.par.ipdom.get(a); n += 1
        return False
    def handoff(self, w, b):
        """the reader waits for a volatile counter that the writer advances after its stores"""
        sw = self.sweep(w.block)
        if sw is None or sw is not self.sweep(b.block) or b.kind != 'r': return False
        body = self.loops[sw]
        for h, root, sb in self.spins():
            if h not in body or h is sw or not core.dominates(self.cfg.idom, h, b.block) or b.block in sb: continue
            for v in self.acc:
                if v.kind == 'w' and v.vol and v.root == root and v.block in body and v is not w and \
                   (v.block is w.block and v.pos > w.pos or v.block is not w.block and self.postdom(w.block, v.block)): return True
        return False
    def flagvalue(self, w):
        """constant c if the write stores c, or old|c"""
        if w.atomic and w.ins is not None and w.ins.op == 'call':
            if 'fetch_and_or' in cname(w.ins) or 'or_and_fetch' in cname(w.ins):
                return self.constform(w.ins.args[1])
            return None
        if w.val is None: return None
        v = strip_casts(resolve(w.val))
        if v.k == 'bin' and v.a[0] == '|':
            for n in (1, 2):
                x = strip_casts(resolve(v.a[n]))
                if x.k == 'ld' and w.ins is not None and self.lv(x.a[0]) == self.lv(w.ins.lv): return self.constform(v.a[3 - n])
            return None
        return self.constform(v)
    def constform(self, e):
        f = self.form(e)
        if set(f) <= {1}: return f.get(1, 0)
        return None
    def lockfree(self, w, b, W):
        sw = self.sweep(w.block)
        same = sw is not None and sw is self.sweep(b.block)
        # volatile data that one sweep reads and writes optimistically
        if same and (w.vol or w.atomic) and (b.vol or b.atomic): return True
        # a flag: all writers set the same bit; a reader in the same sweep may see it late
        c = self.flagvalue(w)
        if c is not None and c != 0:
            if b.kind == 'w':
                if self.flagvalue(b) == c: return True
            if same and not self.claim(b, W) and all(self.flagvalue(x) == c for x in W if x.starts & b.starts): return True
        return False
    def ownvalue(self, b):
        """the test compares the element with a value that belongs to this thread alone"""
        t = b.block.term
        if not t or t[0] != 'br': return False
        c = strip_casts(t[1])
        if c.k != 'bin' or c.a[0] not in ('==', '!='): return False
        return any(own(self.form(x)) for x in c.a[1:] if strip_casts(resolve(x)).k != 'ld')
    def claim(self, b, W):
        """the flag is tested and then set in two steps"""
        for x in W:
            if x.atomic or x.idx != b.idx: continue
            if x.ins is b.ins: continue
            if b.ins is None and self.ownvalue(b): continue
            if core.dominates(self.cfg.idom, b.block, x.block) and (b.block is not x.block or b.pos < x.pos): return True
        return False
    def reviewed(self, w, b):
        for fn, loops, pred, why in REVIEWED:
            if self.par.fn.pretty.split('<')[0] == fn and pred(self, w, b):
                self.par.reviewed[why] = self.par.reviewed.get(why, 0) + 1
                return True
        return False

    def conflicts(self, prod=None):
        by = {}
        self.wroots = {a.root for a in self.acc if a.kind == 'w'}
        for a in self.acc: by.setdefault(a.root, []).append(a)
        out = []
        for root, L in by.items():
            W = [a for a in L if a.kind == 'w']
            if not W: continue
            if root[0] == 'v' and self.idempotent(W): continue
            seen = set()
            for w in W:
                for b in L:
                    if b.kind == 'w' and (id(b), id(w)) in seen: continue
                    seen.add((id(w), id(b)))
                    if prod is None and not self.mhp(w, b): continue
                    if prod is not None:
                        rr = prod.mhp(w, b)
                        rr = [r for r in rr if not any(prod.apart(f, g, r) for f, g in zip(w.idx, b.idx))]
                        if not rr: continue
                    if self.one_thread(w, b): continue
                    if w.crit and b.crit: continue
                    if b.kind == "r" and b.ins is None and in_assert(b.block): continue
                    if w.atomic and b.atomic: continue
                    if b.kind == 'w' and self.samevalue(w, b): continue
                    if b.kind == 'r' and b.ins is not w.ins and not w.one and self.samevalue(w, w) and core.dominates(self.cfg.idom, w.block, b.block): continue
                    if self.cyclic(w, b) or self.cyclic(b, w): continue
                    if self.exclusive(w.block, b.block): continue
                    if self.lockfree(w, b, W): continue
                    if self.handoff(w, b): continue
                    if self.reviewed(w, b): continue
                    if any(self.disjoint1(f, g, w.block, b.block) for f, g in zip(w.idx, b.idx)): continue
                    if len(w.idx) != len(b.idx) and not (w.whole and len(w.idx) < len(b.idx)): continue
                    out.append((w, b))
        return out

def _data(f): return any(k != 1 and k[0] not in ('u', 'tid', 'tidU') for k in f)
def _component(an, w, b):
    return bool(w.idx) and bool(b.idx) and any(c.kind == 'omp' and c.d == 'for' for c in w.block.ctx if c is not an.R) and _data(w.idx[-1]) and _data(b.idx[-1])
def _tolerant(an, w, b):
    return an.par.fn.pretty.endswith(',false>') and an.rootname(w.root) == 'bv_' and an.flagvalue(w) is not None

# Accesses that are disjoint for a reason no index analysis can see; (function, loops, predicate, reason)
REVIEWED = [
    ('CSR::getRCMPermutation', None, _component, 'elements of different connected components: rows, columns and the segment of the permutation reached from one component root'),
    ('bfs_', None, _tolerant, 'visited marks of a search that does not report what it visited: a node found by several threads is expanded by each of them'),
]


def in_assert(b):
    """the block only decides whether an assertion fails"""
    t = b.term
    if not t or t[0] != 'br': return False
    for s in (t[2], t[3]):
        if any(i.op == 'call' and cname(i) == '__assert_fail' for i in s.ins): return True
    return False

def has_orphans(fn):
    """directives that bind to a region of the caller"""
    def w(x):
        if isinstance(x, dict):
            if x.get('k') == 'omp' and x.get('d') in ('barrier', 'master', 'single', 'for', 'critical'): return True
            return any(w(y) for y in x.values() if isinstance(y, (dict, list)))
        if isinstance(x, list): return any(w(y) for y in x)
        return False
    return not has_parallel(fn) and w(fn.d['body'])

def wrapped(fn):
    """the function called by every thread of a team: its parameters are thread-private, what they point to is shared"""
    import copy
    g = copy.copy(fn); g.d = dict(fn.d)
    b = fn.d['body']
    g.d['body'] = dict(b, s=[{'k': 'omp', 'd': 'parallel', 'clauses': [], 'l': b['l'], 'body': b}])
    g._haspar = True; g.wrapper = True
    return g

def own_argument(an, root):
    """a pointer parameter that every thread uses without its thread number, outside single and master: an array of the calling thread"""
    if root[0] == 'ssa' and (root[1] not in an.svof or an.svof[root[1]].kind != 'param'): return False
    if root[0] == 'v' and (root[1] not in an.varof or an.varof[root[1]].kind not in ('param', 'out')): return False
    if root[0] not in ('v', 'ssa'): return False
    L = [a for a in an.acc if a.root == root]
    return any(a.kind == 'w' and not a.one for a in L) and not any(k != 1 and k[0] in ('tid', 'tidU') for a in L for f in a.idx for k in f)

def regions(P):
    """every parallel region of the library that is not part of another one: (function, Par, info, product or None)"""
    import roles
    fns = [f for f in P.repo_fns() if not f.file.startswith('synk/')]
    for f in [f for f in fns if has_parallel(f)] + [wrapped(f) for f in fns if has_orphans(f)]:
        p = Par(P, f)
        for info in p.infos:
            an = info.an
            if getattr(f, 'wrapper', False):
                an.acc = [a for a in an.acc if not own_argument(an, a.root)]
            prod = None
            if any(b[3] is not None for b in an.badbars) and not any(b[3] is None for b in an.badbars):
                try: prod = roles.Product(an)
                except roles.Mismatch: prod = None
            yield f, p, info, prod
