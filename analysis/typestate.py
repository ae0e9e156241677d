"""Path-sensitive typestate of one resource at a time (property simulation).

A resource is the result of an acquiring call (fopen, malloc, _mm_malloc, new ...).
Starting at the acquisition, the set of names that hold it is followed along every path of
the inlined function together with the outcomes of the branch conditions that occur at more
than one place, so that correlated tests ("if (A->extptr) p = ...; ... if (A->extptr) FREE(p)")
do not merge. Infeasible null tests of the resource itself are pruned."""
from core import *

ACQ = {'fopen': 'file', 'fdopen': 'file', 'popen': 'file', 'tmpfile': 'file',
       'malloc': 'malloc', 'calloc': 'malloc', 'realloc': 'malloc', 'strdup': 'malloc', '_mm_malloc': 'mm', 'posix_memalign': 'malloc', 'aligned_alloc': 'malloc',
       'operator new': 'new', 'operator new[]': 'new[]'}
REL = {'fclose': 'file', 'pclose': 'file', 'free': 'malloc', '_mm_free': 'mm', 'operator delete': 'new', 'operator delete[]': 'new[]'}
RELNAME = {'file': 'fclose', 'malloc': 'free', 'mm': '_mm_free/FREE', 'new': 'delete', 'new[]': 'delete[]'}
CAP = 300
RETARG0 = ('strcpy', 'strcat', 'strncpy', 'strncat', 'memcpy', 'memset', 'memmove')

def cname(ins):
    n = ins.x.get('name') if isinstance(ins.x, dict) else None
    return n or ins.callee or ''

def roots(e):
    """Names a pointer value may be derived from."""
    k = e.k
    if k == 'ssa':
        s = e.a[0]
        if s.kind == 'callret' and cname(s.d) in RETARG0 and s.d.args: return [e.key] + roots(s.d.args[0])
        return [e.key]
    if k == 'ld': return [e.a[0].key]
    if k == 'cast': return roots(e.a[1])
    if k == 'bin' and e.a[0] in ('+', '-'):
        r = []
        for x in (e.a[1], e.a[2]):
            if x.ty is None or x.ty.k in ('ptr', 'ref', 'array'): r += roots(x)
        return r
    if k == 'cond': return roots(e.a[1]) + roots(e.a[2])
    if k == 'addr' and e.a[0].k == 'at': return roots(e.a[0].a[0])
    if k == 'addr' and e.a[0].k == 'fld':
        x = e.a[0]
        while x.k == 'fld': x = x.a[0]
        if x.k == 'at': return roots(x.a[0])
    return []

def localbase(lv):
    """Local memory: a field of a local object or an element of a local array."""
    x = lv
    while True:
        if x.k == 'fld': x = x.a[0]
        elif x.k == 'at':
            p = strip_casts(x.a[0])
            if p.k == 'decay': x = p.a[0]
            elif p.k == 'addr': x = p.a[0]
            else: return None
        elif x.k == 'var': return x.a[0] if x.a[0].kind in ('local', 'temp') else None
        else: return None

def summary_key(lv):
    """Elements of an array of pointers are one name."""
    if lv.k == 'at':
        p = strip_casts(lv.a[0])
        while p.k == 'bin' and p.a[0] in ('+', '-') and p.a[1].ty is not None and p.a[1].ty.k in ('ptr', 'array'): p = strip_casts(p.a[1])
        if p.k == 'decay': return ('elem', summary_key(p.a[0]))
        if p.k == 'ld': return ('elem', ('ld', summary_key(p.a[0])))
        return ('elem', p.key)
    if lv.k == 'fld' and has_at(lv): return ('fld', summary_key(lv.a[0]), lv.a[2])
    return lv.key

def has_at(lv):
    while lv.k == 'fld': lv = lv.a[0]
    return lv.k == 'at'

class Track:
    def __init__(self, prog, cfg):
        self.P = prog; self.cfg = cfg
        self.multi = {}; self._gamma = {}
        cnt = {}
        for b in cfg.blocks:
            if b.term and b.term[0] == 'br':
                c, _ = self.canon(b.term[1])
                if c is not None: cnt.setdefault(c.key, []).append(b)
        self.relevant = {k for k, v in cnt.items() if len(v) > 1}
        self.info = {}
        self.npaths = 0
        # for loops that release elements of an array: header -> names released
        self.looprel = {}
        for L in cfg.loops:
            names = set()
            for b in cfg.blocks:
                if L in b.ctx:
                    for ins in b.ins:
                        if ins.op == 'call' and cname(ins) in REL and ins.args:
                            e = strip_casts(resolve(ins.args[0]))
                            if e.k == 'ld' and has_at(e.a[0]): names.add(summary_key(e.a[0]))
            if names and L.head in cfg.blocks: self.looprel[L.head] = (names, L)
    def canon(self, e):
        """(condition, polarity) with negations removed and resolved copies."""
        pol = True
        e = strip_casts(resolve(e))
        while True:
            if e.k == 'ssa' and e.a[0].kind == 'callret' and e.a[0].d.callee in stable_predicates(self.P) and e.a[0].d.this is not None:
                # whether a pointer lies in the memory pool does not change during an operation
                d = e.a[0].d
                return E('bin', ('pred:' + d.callee, strip_casts(resolve(d.this)), strip_casts(resolve(d.args[0]))) if d.args else ('pred:' + d.callee, strip_casts(resolve(d.this)), Int(0)), e.ty, e.loc), pol
            if e.k == 'ssa' and e.a[0].kind == 'phi':
                g = self.gamma(e.a[0])
                if g is not None: return g, pol
            if e.k == 'un' and e.a[0] == '!': pol = not pol; e = strip_casts(e.a[1]); continue
            if e.k == 'bin' and e.a[0] in ('!=', '=='):
                for x, y in ((e.a[1], e.a[2]), (e.a[2], e.a[1])):
                    y = strip_casts(y)
                    if y.k == 'null' or (y.k == 'int' and y.a[0] == 0):
                        if e.a[0] == '==': pol = not pol
                        e = strip_casts(x); break
                else:
                    if e.a[0] == '!=':
                        pol = not pol; e = E('bin', ('==', e.a[1], e.a[2]), e.ty, e.loc)
                    return e, pol
                continue
            if e.k == 'bin' and e.a[0] in ('>', '<='):
                # a > b  ==  b < a ; a <= b == !(b < a)
                if e.a[0] == '<=': pol = not pol
                e = E('bin', ('<', e.a[2], e.a[1]), e.ty, e.loc); return e, pol
            if e.k == 'bin' and e.a[0] == '>=':
                pol = not pol; e = E('bin', ('<', e.a[1], e.a[2]), e.ty, e.loc); return e, pol
            return e, pol
    def gamma(self, sv, depth=0):
        """A value joined from two branches as (condition ? a : b), so that equal conditions that
        were evaluated piecewise (&&, ||, inlined predicates) have equal keys."""
        if sv in self._gamma: return self._gamma[sv]
        self._gamma[sv] = None
        if depth > 8 or sv.var.ty is None or sv.var.ty.k not in ('bool', 'int'): return None
        B = sv.block; phi = sv.d
        if len(B.preds) != 2: return None
        D = self.cfg.idom.get(B)
        if D is None or not D.term or D.term[0] != 'br' or D.term[2] is D.term[3]: return None
        side = {}
        for q in B.preds:
            if q is D: continue
            for tgt, v in ((D.term[2], True), (D.term[3], False)):
                if tgt is not B and dominates(self.cfg.idom, tgt, q) and len(tgt.preds) == 1: side[q] = v
        for q in B.preds:
            if q is D:
                o = [v for r, v in side.items()]
                if len(o) == 1: side[q] = not o[0]
        if len(side) != 2 or len(set(side.values())) != 2: return None
        c, pol = self.canon(D.term[1])
        if c.k == 'ompcond': return None
        vals = {}
        for q in B.preds:
            o = phi.ops.get(q)
            if o is None: return None
            x = strip_casts(resolve(E('ssa', (o,), sv.var.ty)))
            if x.k == 'ssa' and x.a[0].kind == 'phi':
                g = self.gamma(x.a[0], depth + 1)
                if g is not None: x = g
            elif x.k in ('bin', 'un'):
                y, p2 = self.canon(x); x = y if p2 else E('un', ('!', y), y.ty)
            vals[side[q] == pol] = x
        r = E('cond', (c, vals[True], vals[False]), sv.var.ty)
        self._gamma[sv] = r
        return r
    def deps(self, e):
        k = e.key
        if k not in self.info:
            s = set(); f = set()
            for x in e.walk():
                if x.k == 'ssa': s.add(x.key)
                elif x.k == 'ld':
                    l = x.a[0]
                    if l.k == 'fld': f.add(l.a[2])
                    elif l.k == 'var': f.add(l.key)
                    else: f.add('*')
            self.info[k] = (s, f)
        return self.info[k]
    def isnulltest(self, b):
        """Root names of the pointer tested, polarity of the edge on which it is non-null."""
        e = strip_casts(b.term[1]); pol = True
        for _ in range(20):
            if e.k == 'un' and e.a[0] == '!': pol = not pol; e = strip_casts(e.a[1])
            elif e.k == 'bin' and e.a[0] in ('==', '!='):
                for x, y in ((e.a[1], e.a[2]), (e.a[2], e.a[1])):
                    y = strip_casts(resolve(y))
                    if y.k == 'null' or (y.k == 'int' and y.a[0] == 0): break
                else: return None
                if e.a[0] == '==': pol = not pol
                e = strip_casts(x)
            elif e.k == 'ssa' and e.a[0].kind == 'set' and e.ty is not None and e.ty.k in ('bool', 'int') and e.a[0].d.e.k in ('bin', 'un', 'cast'):
                e = strip_casts(e.a[0].d.e)       # a flag computed from the pointer
            else: break
        if e.ty is not None and e.ty.k not in ('ptr',): return None
        if e.k in ('ssa', 'ld'):
            r = [e.key] if e.k == 'ssa' else [summary_key(e.a[0]), e.a[0].key]
            return r, pol
        return None
    def run(self, acq, report):
        """acq: the acquiring instruction. Calls report(kind, loc, path)."""
        cfg = self.cfg
        kind = ACQ[cname(acq)] if cname(acq) in ACQ else ACQ[acq.callee]
        start = acq.block
        self.outcomes = set()
        dst = None
        for s in acq.outs or ():
            if s.kind == 'callret': dst = s
        if cname(acq) == 'posix_memalign' and acq.args:
            a = strip_casts(acq.args[0]); k0 = None
            for s in acq.outs or ():
                if a.k == 'addr' and a.a[0].k == 'var' and s.var is a.a[0].a[0]: k0 = ('ssa', s.uid)
            if k0 is None and a.k == 'addr': k0 = a.a[0].key
            if k0 is None: self.outcomes.add('owned'); return 'ok'
            h0 = frozenset([k0])
        elif dst is not None: h0 = frozenset([('ssa', dst.uid)])
        elif acq.dst is not None: h0 = frozenset([acq.dst.key])
        else:
            report('never used', acq.loc, []); return 'leak'
        par = any(c.kind == 'omp' and c.d == 'parallel' for c in acq.ctx)
        one = any(c.kind == 'omp' and c.d in ('single', 'master') for c in acq.ctx)
        team = not par or one
        init = (h0, 'live', self.initial(acq))
        outst = self.flow(start, acq.idx + 1, init, kind, report, acq)
        work = []
        seen = {}; queued = set()
        capped = False
        def push(frm, st, to):
            nonlocal capped
            if st is None: return
            st = self.phis(frm, to, st)
            if st is None: return
            # property simulation: states that agree on the resource are merged, keeping common facts
            S = seen.setdefault(to, {})
            k = (st[0], st[1])
            if k in S:
                m = S[k] & st[2]
                if m == S[k]: return
                S[k] = m
                if (to, k) not in queued: queued.add((to, k)); work.append((to, k))
                return
            if len(S) > CAP: capped = True; return
            S[k] = st[2]; queued.add((to, k)); work.append((to, k))
        for st in outst:
            for t, s2 in self.edges(start, st, team): push(start, s2, t)
        ended = False
        while work:
            b, k = work.pop(0); queued.discard((b, k))
            st = (k[0], k[1], seen[b][k])
            self.npaths += 1
            for o in self.flow(b, 0, st, kind, report, acq):
                if b is cfg.exit: self.atexit(o, kind, report, acq); continue
                for t, s2 in self.edges(b, o, team): push(b, s2, t)
        if start is cfg.exit:
            for st in outst: self.atexit(st, kind, report, acq)
        return 'capped' if capped else 'ok'
    def atexit(self, st, kind, report, acq):
        h, status, facts = st
        if status != 'live': return
        ev = getattr(self.cfg, 'exitvals', {})
        for v, sv in ev.items():
            if ('ssa', sv.uid) in h: self.outcomes.add('escape'); return
        t = self.cfg.exit.term
        if t and t[1] is not None and any(r in h for r in roots(t[1])): self.outcomes.add('escape'); return
        if any(k[0] == 'glob' for k in h): return
        cont = self.containers()
        def within(k):
            return isinstance(k, tuple) and (k in cont or any(within(x) for x in k))
        if any(k[0] in ('elem', 'fld', 'at') and within(k) for k in h): self.outcomes.add('owned'); return
        report('leak', acq.loc, facts)
    def modfields(self, ins):
        """Names of the fields that a call can touch (None: unknown callee)."""
        if ins.callee is None: return None
        cache = self.P.__dict__.setdefault('_modfields', {})
        if ins.callee in cache: return cache[ins.callee]
        import api
        g = {}
        for callee, users in api.callees(self.P).items():
            for u in users: g.setdefault(u, set()).add(callee)
        byname = {}
        for f in self.P.repo_fns(): byname.setdefault(f.name.split('::')[-1], []).append(f)
        f0 = self.P.fns[ins.callee]
        seen = set(); w = [g2.m for g2 in byname.get(f0.name.split('::')[-1], [f0])]
        r = set()
        def flds(x):
            if isinstance(x, dict):
                if x.get('k') == 'mem': r.add(x['f'])
                for y in x.values():
                    if isinstance(y, (dict, list)): flds(y)
            elif isinstance(x, list):
                for y in x: flds(y)
        while w:
            m = w.pop()
            if m in seen: continue
            seen.add(m); f = self.P.fns.get(m)
            if f is None: continue
            flds(f.d.get('body')); flds(f.d.get('inits', []))
            w += list(g.get(m, ()))
        cache[ins.callee] = r
        return r
    def containers(self):
        """Pointers that leave the function or are stored in longer-lived objects: what they hold is owned by them."""
        if getattr(self, '_cont', None) is None:
            r = set()
            for ins in self.cfg.instrs():
                if ins.op == 'set' and not ins.outs and localbase(ins.lv) is None and not (ins.lv.k == 'var' and ins.lv.a[0].kind not in ('global', 'static')):
                    r.update(roots(ins.e))
            t = self.cfg.exit.term
            if t and t[1] is not None: r.update(roots(t[1]))
            for v, sv in getattr(self.cfg, 'exitvals', {}).items(): r.add(('ssa', sv.uid))
            ch = True
            while ch:      # through phis and copies
                ch = False
                for b in self.cfg.blocks:
                    for p in b.phis:
                        if ('ssa', p.sv.uid) in r:
                            for o in p.ops.values():
                                if o is not None and ('ssa', o.uid) not in r: r.add(('ssa', o.uid)); ch = True
                    for ins in b.ins:
                        if ins.op == 'set' and ins.outs and any(('ssa', s.uid) in r for s in ins.outs):
                            for k in roots(ins.e):
                                if k not in r: r.add(k); ch = True
                        elif ins.op == 'set' and ins.outs and (ins.lv.ty is None or ins.lv.ty.k == 'ptr') and any(k in r for k in roots(ins.e)):
                            for s in ins.outs:
                                if ('ssa', s.uid) not in r: r.add(('ssa', s.uid)); ch = True
            self._cont = r
        return self._cont
    def initial(self, acq):
        """Outcomes of the tests that every path to the acquisition has passed and that still hold there."""
        cfg = self.cfg; facts = set(); ab = acq.block
        b = ab
        while b is not None and b in cfg.idom and cfg.idom[b] is not b:
            d = cfg.idom[b]
            if d is None: break
            t = d.term
            if t and t[0] == 'br' and t[2] is not t[3]:
                for tgt, val in ((t[2], True), (t[3], False)):
                    if len(tgt.preds) == 1 and dominates(cfg.idom, tgt, ab):
                        c, pol = self.canon(t[1])
                        if c.key in self.relevant and c.k != 'ompcond' and self.stable(c, tgt, acq): facts.add((c.key, val == pol))
            b = d
        return frozenset(facts)
    def stable(self, c, tgt, acq):
        s, f = self.deps(c)
        if not f: return True
        seen = {tgt}; w = [tgt]; cfg = self.cfg
        # blocks between the test and the acquisition
        back = {acq.block}; bw = [acq.block]
        while bw:
            x = bw.pop()
            if x is tgt: continue
            for q in x.preds:
                if q not in back: back.add(q); bw.append(q)
        fx = frozenset([(c.key, True)])
        for x in back:
            for ins in x.ins:
                if x is acq.block and ins is acq: break
                if ins.op == 'set' and not ins.outs:
                    lv = ins.lv
                    if lv.k == 'fld' and lv.a[2] in f or lv.k == 'var' and lv.key in f or lv.k == 'at' and lv.ty is not None and lv.ty.k == 'ptr': return False
                elif ins.op == 'call' and self.clobbers(ins):
                    mf = self.modfields(ins)
                    if mf is None or mf & f or '*' in f: return False
        return True
    def clobbers(self, ins):
        # functions outside the library cannot change the library's objects unless they get their address
        nm = cname(ins)
        if self.P.fns.get(ins.callee) is not None: return True
        return ins.callee is None or nm in ('', None)
    def edges(self, b, st, team):
        t = b.term
        if t is None or t[0] in ('ret', 'unreach'): return
        if t[0] == 'jmp': yield t[1], st; return
        h, status, facts = st
        e = t[1]
        if b in self.looprel:
            names, L = self.looprel[b]
            if status == 'live' and names & h:
                # the loop releases every element
                for x in (t[2], t[3]):
                    if L in x.ctx or x is L.body: yield x, st
                    else: yield x, (h, 'rel?', facts)
                return
        if e.k == 'ompcond' and team: yield t[2], st; return
        nt = self.isnulltest(b)
        if nt is not None and status in ('live',) and any(k in h for k in nt[0]):
            yield (t[2] if nt[1] else t[3]), st; return
        c, pol = self.canon(e)
        if c.k == 'bin' and c.a[0] == '==':
            for x, y in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
                y = strip_casts(resolve(y))
                if y.k == 'ld' and y.a[0].k == 'var' and y.a[0].a[0].kind in ('global', 'static') and not self.derived(y, h) and self.derived(x, h):
                    yield (t[3] if pol else t[2]), st; return       # a fresh resource differs from stdin, stdout ...
        if team and c.k == 'ssa' and c.a[0].kind == 'callret' and cname(c.a[0].d) == 'omp_get_thread_num':
            yield (t[3] if pol else t[2]), st; return
        key = c.key
        for k, v in facts:
            if k == key:
                yield (t[2] if v == pol else t[3]), st; return
        if key in self.relevant:
            self.deps(c)
            yield t[2], (h, status, facts | {(key, pol)})
            yield t[3], (h, status, facts | {(key, not pol)})
        else:
            yield t[2], st; yield t[3], st
    def kill(self, facts, uid=None, fld=None, all=False):
        if not facts: return facts
        r = []
        for k, v in facts:
            s, f = self.info[k]
            if uid is not None and ('ssa', uid) in s: continue
            if fld is not None and (fld in f or (fld == '*' and '*' in f)): continue
            if all and f: continue
            r.append((k, v))
        return frozenset(r) if len(r) != len(facts) else facts
    def phis(self, frm, to, st):
        if not to.phis: return st
        h, status, facts = st
        add = set(); rem = set()
        for p in to.phis:
            s = p.ops.get(frm)
            if s is not None and ('ssa', s.uid) in h: add.add(('ssa', p.sv.uid))
            else: rem.add(('ssa', p.sv.uid))
        nf = facts
        for p in to.phis: nf = self.kill(nf, uid=p.sv.uid)
        # the outcome of a test of a name carries over to the phi it flows into
        return (frozenset((h - rem) | add), status, nf)
    def derived(self, e, h):
        for r in roots(e):
            if r in h: return True
            if r and r[0] == 'at' and ('elem', strip_key(r[1])) in h: return True
        if self.summarised(e, h): return True
        return False
    def summarised(self, e, h):
        e = strip_casts(resolve(e))
        return e.k == 'ld' and has_at(e.a[0]) and summary_key(e.a[0]) in h
    def flow(self, b, i0, st, kind, report, acq):
        h, status, facts = st
        for ins in b.ins[i0:]:
            if status == 'rel':
                for e in ins.exprs():
                    for x in e.walk():
                        if x.k == 'at' and self.derived(x.a[0], h) and not (ins.op == 'call' and cname(ins) in REL):
                            report('use after release', ins.loc, facts); return
                        if x.k == 'fld' and x.a[0].k == 'at' and self.derived(x.a[0].a[0], h) :
                            report('use after release', ins.loc, facts); return
            if ins.op == 'set':
                d = self.derived(ins.e, h)
                lv = ins.lv
                if ins.outs:
                    for s in ins.outs:
                        k = ('ssa', s.uid)
                        facts = self.kill(facts, uid=s.uid)
                        if d: h = h | {k}
                        elif k in h: h = h - {k}
                else:
                    if lv.k == 'fld': facts = self.kill(facts, fld=lv.a[2])
                    elif lv.k == 'var': facts = self.kill(facts, fld=lv.key)
                    else: facts = self.kill(facts, fld='*') if lv.ty is not None and lv.ty.k == 'ptr' else facts
                    lb = localbase(lv)
                    k = summary_key(lv)
                    if lb is not None:
                        if d: h = h | {k}
                        elif k in h and not has_at(lv): h = h - {k}
                    elif lv.k == 'var':
                        if d:
                            if lv.a[0].kind in ('global', 'static'): return []
                            h = h | {k}
                        elif k in h: h = h - {k}
                    elif d:
                        bs = lv
                        while bs.k == 'fld': bs = bs.a[0]
                        if bs.k == 'at' and self.localarray(bs.a[0]): h = h | {k}
                        else:                     # stored into an object: its owner is responsible
                            bs = lv
                            pp = strip_casts(resolve(bs.a[0])) if bs.k == 'at' else None
                            self.outcomes.add('escape' if pp is not None else 'owned'); return []
            elif ins.op == 'call':
                nm = cname(ins); al = list(ins.args) + ([ins.this] if ins.this is not None else [])
                if nm in REL or ins.callee in REL:
                    rk = REL.get(nm) or REL.get(ins.callee)
                    if any(self.derived(a, h) for a in ins.args[:1]):
                        if status == 'live' and self.summarised(ins.args[0], h): status = 'rel?'; continue
                        if status == 'rel?': continue
                        if status == 'rel': report('released twice', ins.loc, facts); return []
                        if rk != kind:
                            report('released with %s although it was obtained from %s' % (RELNAME[rk], cname(acq)), ins.loc, facts); return []
                        status = 'rel'
                else:
                    hit = [a for a in al if self.derived(a, h)]
                    if hit and status == 'rel' and kind == 'file':
                        report('use after release', ins.loc, facts); return []
                    if hit and (keeps(nm) or self.P.fns.get(ins.callee) is not None): return []
                    for a in al:
                        if a.k == 'ld' and a.ty is not None and a.ty.k == 'rec':
                            lbk = a.a[0].key
                            if any(k[0] == 'fld' and k[1] == lbk for k in h): return []
                for s in ins.outs or ():
                    k = ('ssa', s.uid); facts = self.kill(facts, uid=s.uid)
                    if k in h: h = h - {k}
                if self.clobbers(ins):
                    mf = self.modfields(ins)
                    if mf is None: facts = self.kill(facts, all=True)
                    else:
                        facts = self.kill(facts, fld='*')
                        for x in mf: facts = self.kill(facts, fld=x)
            elif ins.op == 'decl':
                k = ins.lv.key
                h = frozenset(x for x in h if x != k)
        return [(h, status, facts)]
    def localarray(self, p):
        """p points to storage that this function allocated (an array of pointers)."""
        p = strip_casts(resolve(p))
        while p.k == 'bin' and p.a[0] in ('+', '-'): p = strip_casts(p.a[1])
        if p.k == 'decay': return localbase(p.a[0]) is not None or p.a[0].k == 'var' and p.a[0].a[0].kind == 'local'
        if p.k == 'ssa' and p.a[0].kind == 'callret': return cname(p.a[0].d) in ACQ or p.a[0].d.callee in ACQ
        return False

def stable_predicates(P):
    if getattr(P, '_stablepred', None) is None:
        P._stablepred = {f.m for f in P.repo_fns() if f.name.split('::')[-1] == 'contains' and f.rec and f.rec.endswith('MemoryPool')}
    return P._stablepred
def inline(P):
    sp = stable_predicates(P)
    return lambda g, d: not g.file.startswith('/') and g.m not in sp
def strip_key(k): return k
PUREC = set('memcpy memset memmove printf fprintf sprintf fputs puts fopen fclose fread fwrite fgets fscanf sscanf malloc free _mm_malloc _mm_free _mm_pause __rdtsc omp_get_thread_num omp_get_num_threads omp_get_max_threads strlen strcmp strncmp tolower sqrt abs fabs'.split())
def keeps(nm):
    b = nm.split('::')[-1]
    return b in ('push_back', 'push', 'insert', 'assign', 'emplace_back', 'setbuf', 'setvbuf', 'operator=') or nm.startswith('std::') and b in ('pair', 'make_pair', 'vector')
