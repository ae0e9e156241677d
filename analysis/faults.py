"""What a function does after something went wrong: conditional constant propagation that starts at one program
point with an assumption (the call failed, the value read is bad) and follows every path that remains possible."""
from nullness import *
from loops import counted, lf, fk

READ = {'fread': 3, 'fscanf': 0, 'fgets': 2, 'fgetc': 0, 'getc': 0, 'sscanf': None, 'vfscanf': 0, 'getline': 2}
WRITE = {'fwrite': 3, 'fprintf': 0, 'fputs': 1, 'fputc': 1, 'putc': 1}
STDIO = {'fclose': 0, 'fread': 3, 'fwrite': 3, 'fprintf': 0, 'fscanf': 0, 'fgets': 2, 'fseek': 0, 'ftell': 0, 'rewind': 0, 'feof': 0, 'ferror': 0, 'fflush': 0}
SHORT = 'short count'; POS = 'positive'; BIG = 'too big'; GE0 = 'not negative'; NEGV = -1
END = ('exit', '_exit', 'abort', 'terminate', 'quick_exit', '_Exit')

def isconst(v):
    t = v.a[0].ty
    return getattr(v.a[0], 'glob', None) in (True, 'static', 'global') or bool(t is not None and (getattr(t, 'const', False) or 'const' in str(t)))
class Fault(Null):
    def __init__(self, P, cfg):
        Null.__init__(self, P, cfg)
        self.bmemo = {}; self.wmemo = {}
        self.counted = None
        self.assume = {}; self.arr = {}; self.memassume = {}; self.prune = set(); self.count = None; self.base0 = {}; self.eqprune = False; self.params = {}
        self.run(); self.base0 = dict(self.val); self.baseIN = {b: dict(m) for b, m in self.IN.items()}; self.baseexec = set(self.exec); self.base00 = self.base0
    # ---------------------------------------------------------------- memory
    def mkey(self, lv):
        if lv.k == 'var': return ('v', lv.a[0])
        if lv.k == 'fld':
            r = self.root(lv)
            return (r, lv.a[2]) if r is not None else None
        if lv.k == 'at' and constref(lv.a[1]) is None if False else lv.k == 'at':
            if self.ev0(lv.a[1]) == 0 and lv.a[0] is not None:
                p = strip_casts(resolve(lv.a[0]))
                if p.k == 'ssa' and p.a[0].kind == 'param': return ('p', p.a[0].var)
        return None
    def ev0(self, e): return e.a[0] if e.k == 'int' else None
    def akey(self, e):
        """the array a pointer expression points into, and the offset"""
        off = 0; e = strip_casts(e)
        for _ in range(20):
            if e.k == 'bin' and e.a[0] in ('+', '-') and (loops.isptr(e) or e.ty is not None and e.ty.isptr):
                c = loops.const(lf(e.a[2]))
                if c is None: return None, None
                off += c if e.a[0] == '+' else -c; e = strip_casts(e.a[1]); continue
            if e.k == 'ssa':
                d = definition(e.a[0])
                if d is not None: e = strip_casts(d); continue
                return ('s', e.a[0]), off
            if e.k == 'ld':
                k = self.mkey(e.a[0])
                return (k, off) if k is not None else (None, None)
            if e.k == 'addr' and e.a[0].k == 'at':
                c = loops.const(lf(e.a[0].a[1]))
                if c is None: return None, None
                off += c; e = strip_casts(e.a[0].a[0]); continue
            if e.k == 'decay' and e.a[0].k == 'var': return ('v', e.a[0].a[0]), off
            return None, None
        return None, None
    def walks(self, e):
        """the array a pointer that is moved along in a loop points into"""
        e = strip_casts(resolve(e))
        while e.k == 'bin' and e.a[0] in ('+', '-'): e = strip_casts(resolve(e.a[1]))
        if e.k != 'ssa' or e.a[0].kind != 'phi': return None
        s = e.a[0]
        if s not in self.wmemo:
            self.wmemo[s] = None
            ks = set()
            for b in self.cfg.order:
                for p in b.phis:
                    if p.sv is s:
                        for o in p.ops.values():
                            x = strip_casts(resolve(E('ssa', (o,))))
                            while x.k == 'bin' and x.a[0] in ('+', '-'): x = strip_casts(resolve(x.a[1]))
                            if x.k == 'ssa' and x.a[0] is s: continue
                            ks.add(self.akey(x)[0])
            if len(ks) == 1: self.wmemo[s] = ks.pop()
        return self.wmemo[s]
    # ---------------------------------------------------------------- evaluation
    def sval(self, s):
        if s in self.assume: return self.assume[s]
        if s.kind in ('set', 'phi'):
            v = self.val.get(s, BOT)
            return v if v is not BOT else self.base0.get(s, BOT)
        if s.kind == 'param': return self.params.get(s.var, TOP)
        if s.kind == 'callret':
            return NN if short(cname(s.d)) .startswith('operator new') else TOP
        if s.kind in ('undef', 'decl'): return BOT
        return TOP
    def ev(self, e, mem):
        if e.k == 'ssa' and ('r', e.a[0]) in mem: return mem[('r', e.a[0])]
        if e.k == 'bin' and e.a[0] in ('==', '!='):
            for x, y in ((e.a[1], e.a[2]), (e.a[2], e.a[1])):
                y = strip_casts(y)          # a number picked to be bad is no magic number of the library
                if y.k == 'ld' and y.a[0].k == 'var' and y.ty is not None and isconst(y.a[0]) and self.ev(x, mem) in (NEGV, BIG): return int(e.a[0] == '!=')
        if e.k == 'ld':
            lv = e.a[0]
            k = self.mkey(lv)
            if k is not None: return mem.get(k, TOP)
            if lv.k == 'at' and self.arr:
                a = self.akey(lv.a[0])[0]
                if a not in self.arr: a = self.walks(lv.a[0])
                if a is not None and a in self.arr: return self.arr[a]
            return TOP
        if e.k == 'bin' and e.a[0] in ('==', '!=', '<', '<=', '>', '>='):
            a, b = self.ev(e.a[1], mem), self.ev(e.a[2], mem); op = e.a[0]
            for x, y, ye, o in ((a, b, e.a[2], op), (b, a, e.a[1], {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op))):
                if x == SHORT:
                    if y is BOT: return BOT
                    same = y == SHORT or self.count is not None and (fk(lf(ye)) == self.count or isnum(y) and self.countv == y)
                    if same: return int(o in ('!=', '<', '<='))
                    if y == 0 and o in ('<',): return 0
                    return TOP
                if x == POS:
                    if isnum(y) and y <= 0: return int(o in ('!=', '>', '>='))
                    return BOT if y is BOT else TOP
                if x == GE0:
                    if isnum(y) and y < 0: return int(o in ('!=', '>', '>='))
                    if y == 0 and o in ('<', '>='): return int(o == '>=')
                    return BOT if y is BOT else TOP
                if x == BIG:
                    if y is BOT: return BOT
                    if y == BIG: return TOP
                    return int(o in ('!=', '>', '>='))
        if e.k == 'bin' and e.a[0] in ('+', '-', '*', '/'):
            a, b = self.ev(e.a[1], mem), self.ev(e.a[2], mem)
            if BIG in (a, b) and not isnum(a) and not isnum(b): return BOT if BOT in (a, b) else TOP
            if a == BIG: return BIG if e.a[0] in '+-' or isnum(b) and b > 0 and e.a[0] == '*' else TOP
            if b == BIG: return BIG if e.a[0] == '+' or isnum(a) and a > 0 and e.a[0] == '*' else TOP
            if e.a[0] == '+' and not (isnum(a) and isnum(b)) and all(x in (POS, GE0) or isnum(x) and x >= 0 for x in (a, b)): return POS if any(isnum(x) and x > 0 or x == POS for x in (a, b)) else GE0
        if e.k == 'bin' and e.a[0] == '|':
            a, b = self.ev(e.a[1], mem), self.ev(e.a[2], mem)
            if isnum(a) and isnum(b): return a | b
            if any(isnum(x) and x != 0 or x in (POS, NN) for x in (a, b)): return NN
        if e.k == 'cast':
            v = self.ev(e.a[1], mem)
            if v in (SHORT, POS, BIG): return v if e.ty is None or e.ty.k == 'int' else 1 if e.ty.k == 'bool' and v != SHORT else TOP
        return Null.ev(self, e, mem)
    def truth(self, v):
        if v in (POS, BIG): return True
        return Null.truth(self, v)
    def step(self, i, mem):
        for o in i.outs or ():
            mem.pop(('r', o), None)
        if i.op == 'set' and not i.outs and i.lv.k != 'fld':
            k = self.mkey(i.lv); v = self.ev(i.e, mem)
            if k is not None:
                if v in (TOP, BOT): mem.pop(k, None)
                else: mem[k] = v
            return
        if i.op == 'decl' and not i.outs:
            for k in list(mem):
                if k[0] == 'v' and k[1] is getattr(i, 'var', None): del mem[k]
        if i.op == 'call':
            for a in list(i.args or ()):
                x = strip_casts(resolve(a))
                if x.k == 'addr' and x.a[0].k == 'var': mem.pop(('v', x.a[0].a[0]), None)
                if x.k == 'ssa' and x.a[0].kind == 'param' and cname(i) not in REL: mem.pop(('p', x.a[0].var), None)
        Null.step(self, i, mem)
        if i.op == 'call' and i in self.memassume:
            for k, v in self.memassume[i].items(): mem[k] = v
    def outs(self, b, mem):
        o = Null.outs(self, b, mem)
        if self.prune: o = [s for s in o if (b, s) not in self.prune]
        if self.eqprune and len(o) == 2 and b.term[0] == 'br':
            c = strip_casts(resolve(b.term[1]))
            if c.k == 'bin' and c.a[0] in ('==', '!=') and self.counter(c.a[1], c.a[2]):
                o = [b.term[3] if c.a[0] == '==' else b.term[2]]
        return o
    def refine(self, b, s, mem):
        """what the branch taken says about the variable tested"""
        if b.term[0] == 'br' and b.term[2] is not b.term[3]:
            c = b.term[1]; t = s is b.term[2]
            while c.k == 'un' and c.a[0] == '!' or c.k == 'cast':
                if c.k == 'un': t = not t
                c = c.a[1]
            if c.k == 'ssa' and c.ty is not None and c.ty.k == 'bool' or c.k == 'ssa' and not t and c.ty is not None and c.ty.k == 'int':
                mem = dict(mem); mem[('r', c.a[0])] = 1 if t else 0
        return mem
    def counter(self, x, y):
        """one side counts what was read, the other is a number from the file"""
        if self.counted is None:
            self.counted = set(); self.head = {}
            for h, body in loops.natural(self.cfg).items():
                if not any(i.op == 'call' and short(cname(i)) in READ for b in body for i in b.ins): continue
                for p in h.phis:
                    for q, o in p.ops.items():
                        if q in body and self.inc(o, p.sv): self.counted.add(p.sv)
            for _ in range(4):
                for b in self.cfg.order:
                    for p in b.phis:
                        if p.sv not in self.counted and any(o in self.counted for o in p.ops.values()): self.counted.add(p.sv)
        return any(self.iscount(a) and self.fromfile(b) for a, b in ((x, y), (y, x)))
    def inc(self, o, sv, depth=6):
        if depth == 0: return False
        if o.kind == 'phi': return any(self.inc(x, sv, depth - 1) for x in o.d.ops.values() if x is not o) if hasattr(o.d, 'ops') else False
        return o is not sv and loops.const(loops.plus(lf(E('ssa', (o,)), stop=(sv,)), {('ssa', sv.uid): 1}, -1)) not in (None, 0)
    def iscount(self, e):
        e = strip_casts(resolve(e))
        return e.k == 'ssa' and e.a[0] in self.counted
    def fromfile(self, e, seen=None):
        seen = seen or set()
        e = strip_casts(resolve(e))
        if e.k == 'ld' and e.a[0].k == 'var': return True
        if e.k != 'ssa' or e.a[0] in seen: return False
        s = e.a[0]; seen.add(s)
        if s.kind == 'callout': return True
        if s.kind == 'phi' and hasattr(s.d, 'ops'): return any(self.fromfile(E('ssa', (o,)), seen) for o in s.d.ops.values())
        return False
    # ---------------------------------------------------------------- propagation from a point
    def after(self, b0, idx, assume=None, mem=None, arr=None, memassume=None, count=None, countv=None, eqprune=False, prune=(), resume=None):
        """follow the paths that start after instruction idx of block b0"""
        self.assume = assume or {}; self.arr = arr or {}; self.memassume = memassume or {}; self.count = count; self.countv = countv; self.eqprune = eqprune; self.prune = set(prune)
        self.val = {}; self.exec = set(); self.edges = set()
        m = dict(self.baseIN.get(b0, {}))
        self.base0 = self.base00
        if resume is None:
            for i in b0.ins[:idx]: self.step(i, m)
        else:                       # continue another run at the end of the block
            m = dict(resume[1]); self.base0 = dict(self.base00); self.base0.update(resume[0])
        self.start = (b0, idx); self.first = dict(m)
        self.IN = {}; order = self.cfg.rpo()
        self.exits = []
        mm = dict(m); mm.update(mem or {})
        for n, i in enumerate(b0.ins[idx:]): self.step(i, mm)
        self.firstmem = m; self.firstextra = mem or {}
        pend = []
        self.em = {}
        for s in self.outs(b0, mm): self.edges.add((b0, s)); self.em[(b0, s)] = self.refine(b0, s, mm); self.IN[s] = dict(self.em[(b0, s)])
        if b0.term and b0.term[0] == 'ret': pend.append((b0, mm))
        for it in range(40):
            self.ch = False
            for b in order:
                if b not in self.IN: continue
                self.exec.add(b)
                mem_ = dict(self.IN[b])
                for p in b.phis:
                    v = BOT
                    for q, s in p.ops.items():
                        if (q, b) in self.edges:
                            r = self.em.get((q, b), {}).get(('r', s))
                            v = join(v, r if r is not None else self.sval(s))
                    self.setv(p.sv, v)
                for p in b.phis: mem_.pop(('r', p.sv), None)
                for i in b.ins: self.step(i, mem_)
                for s in self.outs(b, mem_):
                    out = mem_; mem_ = self.em[(b, s)] = self.refine(b, s, out)
                    if (b, s) not in self.edges: self.edges.add((b, s)); self.ch = True
                    if s not in self.IN: self.IN[s] = dict(mem_); self.ch = True
                    else:
                        o = self.IN[s]
                        for k in list(o):
                            v = join(o[k], mem_.get(k, TOP))
                            if v == TOP: del o[k]; self.ch = True
                            elif v != o[k]: o[k] = v; self.ch = True
                    mem_ = out
            if not self.ch: break
        res = list(pend)
        for b in self.exec:
            if b.term and b.term[0] == 'ret':
                mem_ = dict(self.IN[b])
                for p in b.phis: mem_.pop(('r', p.sv), None)
                for i in b.ins: self.step(i, mem_)
                res.append((b, mem_))
        return res
    def reached(self):
        """(block, instruction, memory before it) of everything that may run after the start point"""
        b0, idx = self.start
        m = dict(self.firstmem); m.update(self.firstextra)
        for i in b0.ins[idx:]:
            yield b0, i, m
            self.step(i, m)
        yield b0, None, m
        for b in self.cfg.order:
            if b not in self.exec: continue
            m = dict(self.IN[b])
            for p in b.phis: m.pop(('r', p.sv), None)
            for i in b.ins:
                yield b, i, m
                self.step(i, m)
            yield b, None, m
    def retval(self, b, mem):
        return self.ev(b.term[1], mem) if len(b.term) > 1 and isinstance(b.term[1], E) else None
