"""Two-role product of a parallel region whose threads follow a protocol of their own:
thread 0 on one side, all other threads on the other. Both roles are stepped from barrier
to barrier over the control-flow graph. Conditions on the thread number and on private
flags are decided; a condition on shared data is left open the first time and then has the
same outcome for both roles until one of them stores to that data. The analysis reports
barriers at which the roles do not meet, and which stretches of code of one role run
concurrently with which of the other.
"""
import core
from core import E, resolve, strip_casts, locstr
import par

class Mismatch(Exception): pass

class Product:
    MAXSTATES = 4000
    def __init__(self, an):
        self.an = an; self.problems = []; self.pairs = set(); self.oo = set(); self.meets = set(); self.states = 0
        self.wr = {}
        for a in an.acc:
            if a.kind == 'w' and a.ins is not None: self.wr.setdefault(id(a.ins), []).append(a)
        self.flags = set()
        for b in an.blocks:
            for p in b.phis:
                if p.sv.var is not None and p.sv.var.ty is not None and p.sv.var.ty.k == 'bool': self.flags.add(p.sv)
            for i in b.ins:
                for o in i.outs or ():
                    if o.var is not None and o.var.ty is not None and o.var.ty.k == 'bool': self.flags.add(o)
        self.run()

    # ------------------------------------------------------------ conditions
    def key(self, e):
        """canonical form of a condition on shared data (None: depends on private data)"""
        an = self.an
        r = resolve(e)
        if an.ediv(r): return None
        loads = []
        for x in r.walk():
            if x.k == 'ld' and x.a[0].k in ('var', 'at', 'fld'):
                root, idx = an.lv(x.a[0])
                if an.rootpriv(root): return None
                loads.append((root, tuple(par.fkey(f) for f in idx)))
            if x.k == 'ssa' and x.a[0].block in an.bset and x.a[0].kind == 'phi': return None
        r = strip_casts(r)
        if r.k == 'bin' and r.a[0] in ('<', '>', '<=', '>=', '==', '!='):
            op = r.a[0]; neg = False
            if op == '!=': op, neg = '==', True
            if op == '>=': op, neg = '<', True
            if op == '<=': op, neg = '>', True
            f = par.fadd(an.form(r.a[1]), an.form(r.a[2]), -1)
            if op == '>': op = '<'; f = par.fmul(f, -1)
            if op == '==':
                k1, k2 = par.fkey(f), par.fkey(par.fmul(f, -1))
                k = min(repr(k1), repr(k2))
            else: k = repr(par.fkey(f))
            return (op, k, tuple(sorted(set(loads), key=repr))), neg
        f = an.form(r)          # e is the same as e != 0
        return ('==', min(repr(par.fkey(f)), repr(par.fkey(par.fmul(f, -1)))), tuple(sorted(set(loads), key=repr))), True
    def decide(self, e, role, env, facts, live):
        """outcomes [(bool, facts')]; facts: frozenset of (key, bool)"""
        an = self.an
        e = strip_casts(e)
        if e.k == 'un' and e.a[0] == '!':
            return [(not v, f) for v, f in self.decide(e.a[1], role, env, facts, live)]
        if e.k == 'int': return [(bool(e.a[0]), facts)]
        if e.k == 'ssa':
            sv = e.a[0]
            if sv in env: return [(env[sv], facts)]
            if sv in self.flags and sv.block in an.bset: return [(True, facts), (False, facts)]
            if sv.kind == 'set' and sv.block in an.bset: return self.decide(sv.d.e, role, env, facts, live)
        c = par.constval(e)
        if c is not None: return [(bool(c), facts)]
        if e.k == 'bin' and e.a[0] in ('&&', '||'):
            out = []
            for v, f in self.decide(e.a[1], role, env, facts, live):
                if v == (e.a[0] == '||'): out.append((v, f))
                else: out += self.decide(e.a[2], role, env, f, live)
            return out
        if e.k == 'bin' and e.a[0] in ('<', '>', '<=', '>=', '==', '!='):
            f = par.fadd(an.form(e.a[1]), an.form(e.a[2]), -1)
            if f.get(('tid',)) in (1, -1) and set(f) <= {('tid',), 1}:
                if f[('tid',)] == -1:
                    f = par.fmul(f, -1); op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(e.a[0], e.a[0])
                else: op = e.a[0]
                c = -f.get(1, 0)       # tid op c
                if role == 'Z': return [({'<': 0 < c, '>': 0 > c, '<=': 0 <= c, '>=': 0 >= c, '==': 0 == c, '!=': 0 != c}[op], facts)]
                if op == '==' and c == 0: return [(False, facts)]
                if op == '!=' and c == 0: return [(True, facts)]
                if op == '>' and c == 0 or op == '>=' and c <= 1: return [(True, facts)]
                if op == '<' and c <= 1 or op == '<=' and c <= 0: return [(False, facts)]
        k = self.key(e)
        if k is None: return [(True, facts), (False, facts)]
        key, neg = k
        d = dict(facts)
        if key in d: return [(d[key] != neg, facts)]
        return [(v != neg, facts | {(key, v)}) for v in (True, False)]
    def kill(self, a, role, facts):
        an = self.an
        out = []
        for key, v in facts:
            dead = False
            for root, idx in key[2]:
                if root != a.root: continue
                same = True
                for f, gk in zip(a.idx, idx):
                    if self.differs(f, gk, role): same = False
                if same: dead = True
            if not dead: out.append((key, v))
        return frozenset(out)
    def differs(self, f, gk, role):
        g = dict(gk)           # keys are reprs
        f = {repr(k): v for k, v in f.items()}
        if role == 'Z': f.pop(repr(('tid',)), None)
        d = dict(f)
        for k, v in g.items():
            d[k] = d.get(k, 0) - v
        d = {k: v for k, v in d.items() if v}
        if set(d) <= {'1'}: return bool(d)
        if role == 'O' and set(d) <= {'1', repr(('tid',))}:
            v = d[repr(('tid',))]; c = d.get('1', 0)
            return v > 0 and v + c > 0 or v < 0 and v + c < 0
        return False

    # ------------------------------------------------------------ one segment
    def segment(self, role, start, facts):
        """from (block, pos, env) to the next barriers: ({node: preds}, {end: (node, env, facts, observed)})"""
        an = self.an
        b, pos, env = start
        n0 = (b, pos, env, facts, frozenset())
        preds = {n0: set()}; st = [n0]; ends = {}
        touched = {}
        def go(n, m):
            if m not in preds: preds[m] = set(); st.append(m)
            preds[m].add(n)
        while st:
            n = st.pop()
            if len(preds) > 60000: raise Mismatch('too many states')
            b, pos, env, facts, obs = n
            dead = False
            outs = [(env, facts)]
            acc = touched.setdefault(n, [])
            k = pos; stop = None
            while k < len(b.ins):
                i = b.ins[k]
                if an.isbar(i): stop = (i, k); break
                k += 1
                acc.append(id(i))
                nxt = []
                for ev, fc in outs:
                    if i.op == 'set' and i.outs and i.outs[0] in self.flags:
                        for v, f2 in self.decide(i.e, role, dict(ev), fc, None):
                            d = dict(ev); d[i.outs[0]] = v
                            nxt.append((frozenset(d.items()), f2))
                    else:
                        for a in self.wr.get(id(i), ()): fc = self.kill(a, role, fc)
                        nxt.append((ev, fc))
                outs = list(dict.fromkeys(nxt))
            if stop:
                for ev, fc in outs:
                    ends.setdefault((stop[0], b, stop[1] + 1, ev, fc, self.obs(obs, n[3], fc)), set()).add(n)
                continue
            for ev, fc in outs:
                ob = self.obs(obs, n[3], fc)
                self.leave(role, n, b, ev, fc, ob, go, ends, touched)
        return preds, ends, touched
    def obs(self, obs, before, after): return obs | (after - before)
    def leave(self, role, n, b, ev, fc, ob, go, ends, touched):
        an = self.an
        t = b.term
        touched.setdefault(n, []).append(('t', id(b)))
        cand = []
        if t and t[0] == 'br' and t[1].k == 'ompcond':
            cand = [(t[2], fc)] if not an.nested(b.ctx) else [(t[2], fc), (t[3], fc)]
            if not an.nested(b.ctx) and t[1].a[0] in ('master', 'masked'): cand = [(t[2] if role == 'Z' else t[3], fc)]
        elif t and t[0] == 'br':
            for v, f2 in self.decide(t[1], role, dict(ev), fc, None): cand.append((t[2] if v else t[3], f2))
        else: cand = [(s, fc) for s in b.succs]
        for s, f2 in cand:
            if t and s in b.succs and s not in an.bset:
                ends.setdefault(('exit', None, 0, frozenset(), f2, self.obs(ob, fc, f2)), set()).add(n); continue
            d = dict(ev); new = {}
            for p in s.phis:
                if p.sv in self.flags:
                    o = p.ops.get(b)
                    if o is None: continue
                    if o in d: new[p.sv] = d[o]
                    else:
                        e = strip_casts(resolve(E('ssa', (o,))))
                        if e.k == 'int': new[p.sv] = bool(e.a[0])
            d.update(new)
            d = {k: v for k, v in d.items() if self.alive(k, s)}
            go(n, (s, 0, frozenset(d.items()), f2, self.obs(ob, fc, f2)))
    def alive(self, sv, b):
        if not hasattr(self, 'uses'):
            # liveness of the flags
            an = self.an
            use = {x: set() for x in an.blocks}; de = {x: set() for x in an.blocks}; pu = {x: set() for x in an.blocks}
            def U(x, e):
                for y in e.walk():
                    if y.k == 'ssa' and y.a[0] in self.flags and y.a[0] not in de[x]: use[x].add(y.a[0])
            for x in an.blocks:
                for p in x.phis:
                    if p.sv in self.flags: de[x].add(p.sv)
                    for q, o in p.ops.items():
                        if o in self.flags and q in pu: pu[q].add(o)
                for i in x.ins:
                    for e in i.exprs(): U(x, e)
                    for o in i.outs or (): de[x].add(o)
                if x.term and x.term[0] == 'br': U(x, x.term[1])
            live = {x: set() for x in an.blocks}; ch = True
            while ch:
                ch = False
                for x in an.blocks:
                    o = set(pu[x])
                    for s in x.succs:
                        if s in live: o |= live[s]
                    n = use[x] | (o - de[x])
                    if n != live[x]: live[x] = n; ch = True
            self.uses = live; self.phid = de
        return sv in self.uses[b] or sv in self.phid[b]

    # ------------------------------------------------------------ product
    def run(self):
        an = self.an
        s0 = (an.R.first, 0, frozenset())
        seen = set(); st = [(s0, s0, frozenset())]
        memo = {}
        def seg(role, start, facts):
            k = (role, start, facts)
            if k not in memo: memo[k] = self.segment(role, start, facts)
            return memo[k]
        def back(preds, nodes):
            r = set(); w = list(nodes)
            while w:
                x = w.pop()
                if x in r: continue
                r.add(x); w.extend(preds[x])
            return r
        bad = set()
        while st:
            z, o, F = st.pop()
            if (z, o, F) in seen: continue
            seen.add((z, o, F)); self.states += 1
            if self.states > self.MAXSTATES: self.problems.append(('too many states', None, None)); return
            pz, ez, tz = seg('Z', z, F)
            for (bi, bb, bp, env, fz, ob), nodes in ez.items():
                zi = {i for n in back(pz, nodes) for i in tz.get(n, ())}
                fo0 = self.merge(F, ob, zi)
                po, eo, to = seg('O', o, fo0)
                ends = list(eo)
                for x in range(len(ends)):
                    for y in range(x):
                        p, q = ends[x], ends[y]
                        if p[0] is q[0] or p[0] == q[0]: continue
                        fp, fq = set(p[4]) | set(p[5]), set(q[4]) | set(q[5])
                        if any((k, not v) in fq for k, v in fp): continue
                        k = ('oo', id(p[0]), id(q[0]))
                        if k not in bad: bad.add(k); self.problems.append(('two threads other than thread 0 part', p[0], q[0]))
                for (ci, cb, cp, env2, fo, ob2), nodes2 in eo.items():
                    oi = {i for n in back(po, nodes2) for i in to.get(n, ())}
                    for x in zi: 
                        for y in oi: self.pairs.add((x, y))
                    for x in oi:
                        for y in oi: self.oo.add((x, y))
                    if bi == 'exit' and ci == 'exit': continue
                    if bi == 'exit' or ci == 'exit' or an.isbar(bi) != an.isbar(ci) or an.isbar(bi) == 'omp' and bi is not ci:
                        k = (bi if bi == 'exit' else id(bi), ci if ci == 'exit' else id(ci))
                        if k not in bad: bad.add(k); self.problems.append(('the threads do not meet', bi, ci))
                        continue
                    self.meets.add((id(bi), id(ci)))
                    # facts that neither role invalidated in this stretch
                    nf = {}; clash = set()
                    for facts, ins, r in ((fz, oi, 'O'), (fo, zi, 'Z')):
                        for k, v in facts:
                            if self.killedby(ins, k, r): continue
                            if nf.setdefault(k, v) != v: clash.add(k)
                    for k in clash: del nf[k]
                    st.append(((bb, bp, env), (cb, cp, env2), frozenset(nf.items())))
    def merge(self, F, ob, zi):
        d = {k: v for k, v in F if not self.killedby(zi, k, 'Z')}
        o = {k: v for k, v in ob if (k, not v) not in ob and not self.killedby(zi, k, 'Z')}
        for k, v in o.items(): d.setdefault(k, v)
        return frozenset(d.items())
    def killedby(self, ins, key, role):
        f = frozenset([(key, True)])
        for i in ins:
            for a in self.wr.get(i, ()) if not isinstance(i, tuple) else ():
                if not self.kill(a, role, f): return True
        return False

    # ------------------------------------------------------------ concurrency
    def akey(self, a): return id(a.ins) if a.ins is not None else ('t', id(a.block))
    def mhp(self, a, b):
        """'zo'/'oz'/'oo': which roles may execute the two accesses at the same time"""
        x, y = self.akey(a), self.akey(b)
        r = []
        if (x, y) in self.pairs: r.append('zo')
        if (y, x) in self.pairs: r.append('oz')
        if (x, y) in self.oo or (y, x) in self.oo: r.append('oo')
        return r
    def apart(self, f, g, r):
        """indices f and g differ when executed by roles r"""
        if r == 'oz': f, g, r = g, f, 'zo'
        if r == 'oo':
            if ('tid',) in f: f, g = g, f
            if ('tid',) in f: return False
        if r in ('zo', 'oo'):
            f = {k: v for k, v in f.items() if k != ('tid',)}
            if any(k != 1 and k[0] != 'u' for k in f): return False
            d = par.fadd(g, f, -1)
            d = {k: v for k, v in d.items() if v}
            if set(d) <= {1}: return bool(d)
            if set(d) <= {1, ('tid',)}:
                v = d[('tid',)]; c = d.get(1, 0)
                return v > 0 and v + c > 0 or v < 0 and v + c < 0
        return False
