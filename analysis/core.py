"""Core of the SpMP static analyses.

 * loads the type-resolved program dumped by frontend/astdump (one JSON per
   translation unit, taken from /repo's current sources on every run);
 * lowers functions to a control-flow graph of simple instructions, with calls
   inlined on request (so that extracting a helper does not change what an
   analysis sees);
 * builds SSA form for scalar locals, dominators, loops.

Nothing of SpMP is ever executed.
"""
import json, os, subprocess, sys, hashlib, itertools

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SPMP_REPO', '/repo')

class AnalysisBroken(Exception):
    """The check cannot decide (anchor vanished, program cannot be parsed)."""

# ----------------------------------------------------------------------------
# front end
# ----------------------------------------------------------------------------

def build_dir():
    d = os.environ.get('SPMP_VERIF_BUILD', os.path.join(VERIF, 'build'))
    os.makedirs(d, exist_ok=True)
    return d

def frontend():
    """Path of the astdump binary; builds it when absent or out of date."""
    src = os.path.join(VERIF, 'frontend', 'astdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(build_dir(), 'astdump-' + h)
    if not os.path.exists(exe):
        tmp = exe + '.tmp%d' % os.getpid()
        cmd = ['g++', '-std=c++17', '-O0', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
               '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18', '-Wl,-rpath,/usr/lib/llvm-18/lib']
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise AnalysisBroken('cannot build the front end: ' + p.stderr[-2000:])
        os.replace(tmp, exe)
    return exe

def sources():
    import glob
    out = []
    for pat in ('*.cpp', 'reordering/*.cpp', 'synk/*.cpp'):
        out += sorted(glob.glob(os.path.join(REPO, pat)))
    if len(out) < 10:
        raise AnalysisBroken('too few library sources under %s' % REPO)
    return out

RELEASE = ['-O3', '-DNDEBUG']
DEBUG = ['-O0', '-g']

def dump_unit(src, flags, extra_roots=None):
    exe = frontend()
    import tempfile
    fd, out = tempfile.mkstemp(suffix='.json'); os.close(fd)
    root = (extra_roots or REPO).rstrip('/') + '/'
    try:
        cmd = [exe, root, out, src, '--', '-fopenmp', '-std=c++11', '-Wno-everything'] + flags + \
              ['-isystem', os.path.join(VERIF, 'frontend', 'shim'), '-resource-dir', '/usr/lib/llvm-18/lib/clang/18',
               '-I' + REPO]
        p = subprocess.run(cmd, capture_output=True, text=True, cwd=REPO)
        if p.returncode or not os.path.getsize(out):
            raise AnalysisBroken('front end failed on %s: %s' % (src, (p.stderr or p.stdout)[-3000:]))
        with open(out) as f:
            return json.load(f)
    finally:
        os.unlink(out)

# ----------------------------------------------------------------------------
# program
# ----------------------------------------------------------------------------

class Ty:
    __slots__ = ('k', 's', 'p', 'w', 'signed', 'n', 'rec', 'vol', 'const', 'size')
    def __repr__(self): return self.s
    @property
    def isptr(self): return self.k in ('ptr', 'ref', 'array')
    @property
    def isint(self): return self.k in ('int', 'bool')

class Fn:
    def __init__(self, d, unit):
        self.d = d; self.unit = unit
        self.name = d['name']; self.m = d['m']
        self.loc = d.get('l'); self.rec = d.get('rec')
        self.params = d['params']
        self.file = self.loc[0] if self.loc else '?'
        self.rt = unit.types.get(d['rt'])
    def __repr__(self): return 'Fn(%s)' % self.pretty
    @property
    def pretty(self):
        n = self.name
        if n.startswith('SpMP::'): n = n[6:]
        t = self.d.get('targs')
        return n + ('<%s>' % t if t else '')
    @property
    def short(self): return self.name.split('::')[-1]

class Unit:
    def __init__(self, src, js):
        self.src = src
        self.types = {}
        for t in js['types']:
            y = Ty(); self.types[t['id']] = y
        for t in js['types']:
            y = self.types[t['id']]
            y.k = t['k']; y.s = t['s']; y.p = self.types.get(t.get('p')); y.w = t.get('w'); y.signed = t.get('signed')
            y.n = t.get('n'); y.rec = t.get('rec'); y.vol = t.get('vol', False); y.const = t.get('const', False)
            y.size = t.get('size')
        self.fns = [Fn(f, self) for f in js['functions']]
        self.globals = js['globals']
        self.records = {r['name']: r for r in js['records']}
        for r in self.records.values():
            for f in r['fields']:
                f['ty'] = self.types[f['t']]

class Program:
    """All translation units of the library (release or debug configuration)."""
    def __init__(self, flags=None, extra=()):
        flags = RELEASE if flags is None else flags
        from concurrent.futures import ThreadPoolExecutor
        frontend()
        srcs = sources()
        with ThreadPoolExecutor(8) as ex:
            js = list(ex.map(lambda s: dump_unit(s, flags), srcs))
            exjs = list(ex.map(lambda s: dump_unit(s, flags, extra_roots='/'), list(extra)))
        self.units = [Unit(s, j) for s, j in zip(srcs, js)]
        for s, j in zip(extra, exjs):
            self.units.append(Unit(s, j))
        self.fns = {}
        self.records = {}
        for u in self.units:
            for f in u.fns:
                self.fns.setdefault(f.m, f)
            for n, r in u.records.items():
                if n not in self.records or not self.records[n]['fields']:
                    self.records[n] = r
        self.byname = {}
        for f in self.fns.values():
            self.byname.setdefault(f.name, []).append(f)
        self._effects = None
    def find(self, name):
        """Functions by (suffix of) qualified name."""
        r = [f for f in self.fns.values() if f.name == name or f.name.endswith('::' + name)]
        return r
    def repo_fns(self):
        return [f for f in self.fns.values() if not f.file.startswith('/')]

# ----------------------------------------------------------------------------
# expressions
# ----------------------------------------------------------------------------
# rvalues: int float str null tparm ld addr decay bin un cast cond fn sizeof ompcond ssa undef
# lvalues: var at fld

class E:
    __slots__ = ('k', 'a', 'ty', 'loc', '_key')
    def __init__(self, k, a, ty=None, loc=None):
        self.k = k; self.a = a; self.ty = ty; self.loc = loc; self._key = None
    @property
    def key(self):
        if self._key is None:
            self._key = (self.k,) + tuple(x.key if isinstance(x, E) else (x.uid if isinstance(x, (Var, SVar)) else (id(x) if isinstance(x, Ty) else (tuple(y.key if isinstance(y, E) else y for y in x) if isinstance(x, (list, tuple)) else x))) for x in self.a)
        return self._key
    def __repr__(self): return show(self)
    def kids(self):
        for x in self.a:
            if isinstance(x, E): yield x
            elif isinstance(x, (list, tuple)):
                for y in x:
                    if isinstance(y, E): yield y
    def walk(self):
        yield self
        for x in self.kids():
            yield from x.walk()

class Var:
    _n = itertools.count()
    __slots__ = ('name', 'ty', 'kind', 'uid', 'loc', 'fn', 'gname', 'ctx', 'origin')
    def __init__(self, name, ty, kind, loc=None, fn=None, gname=None):
        self.name = name; self.ty = ty; self.kind = kind; self.loc = loc; self.fn = fn
        self.uid = 'g:' + gname if gname else 'v%d' % next(Var._n)
        self.gname = gname; self.ctx = (); self.origin = None
    def __repr__(self): return '%s#%s' % (self.name, self.uid)
    @property
    def key(self): return self.uid

def show(e):
    k = e.k; a = e.a
    if k in ('int', 'float'): return str(a[0])
    if k == 'str': return json.dumps(a[0])
    if k == 'null': return 'NULL'
    if k == 'tparm': return a[0]
    if k == 'var': return a[0].name
    if k == 'ssa': return repr(a[0])
    if k == 'ld': return show(a[0])
    if k == 'addr': return '&' + show(a[0])
    if k == 'decay': return show(a[0])
    if k == 'at':
        if a[1].k == 'int' and a[1].a[0] == 0: return '*' + show(a[0])
        return '%s[%s]' % (show(a[0]), show(a[1]))
    if k == 'fld':
        b = a[0]
        if b.k == 'at' and b.a[1].k == 'int' and b.a[1].a[0] == 0: return '%s->%s' % (show(b.a[0]), a[2])
        return '%s.%s' % (show(b), a[2])
    if k == 'bin': return '(%s %s %s)' % (show(a[1]), a[0], show(a[2]))
    if k == 'un': return '%s%s' % (a[0], show(a[1]))
    if k == 'cast': return show(a[1])
    if k == 'cond': return '(%s ? %s : %s)' % tuple(map(show, a))
    if k == 'fn': return a[0]
    if k == 'sizeof': return 'sizeof(%s)' % a[0]
    if k == 'ompcond': return 'omp-' + a[0]
    return k

def Int(v, ty=None, loc=None): return E('int', (v,), ty, loc)
def Bin(op, a, b, ty=None, loc=None): return E('bin', (op, a, b), ty or a.ty, loc or a.loc)

class I:
    """One instruction."""
    __slots__ = ('op', 'lv', 'e', 'callee', 'args', 'this', 'dst', 'loc', 'ctx', 'x', 'block', 'idx', 'ty', 'fnname', 'outs', 'stack', 'refin')
    def __init__(self, op, loc=None, **kw):
        self.op = op; self.loc = loc
        self.lv = self.e = self.callee = self.args = self.this = self.dst = self.x = self.ty = self.fnname = None
        self.ctx = (); self.block = None; self.idx = None; self.outs = None; self.stack = (); self.refin = None
        for k, v in kw.items(): setattr(self, k, v)
    def __repr__(self):
        if self.op == 'set': return '%s = %s' % (self.lv, self.e)
        if self.op == 'call':
            return '%scall %s(%s)%s' % ('%s = ' % self.dst if self.dst is not None else '', self.callee, ', '.join(map(repr, self.args)), ' this=%r' % self.this if self.this is not None else '')
        return '%s %s' % (self.op, self.x if self.x is not None else (self.lv or ''))
    def exprs(self):
        if self.lv is not None: yield self.lv
        if self.e is not None: yield self.e
        if self.this is not None: yield self.this
        for a in self.args or (): yield a

class Block:
    __slots__ = ('id', 'ins', 'term', 'tloc', 'ctx', 'preds', 'succs', 'phis', 'tstack')
    def __init__(self, id):
        self.id = id; self.ins = []; self.term = None; self.tloc = None; self.ctx = (); self.preds = []; self.succs = []; self.phis = []; self.tstack = ()
    def __repr__(self): return 'B%d' % self.id

class Ctx:
    """A lexical construct enclosing an instruction (OpenMP region, loop, guard)."""
    _n = itertools.count()
    def __init__(self, kind, **kw):
        self.kind = kind; self.id = next(Ctx._n)
        self.x = kw
        self.__dict__.update(kw)
    def __repr__(self): return '%s%d' % (self.kind, self.id)

PURE_STD = {'std::min': 'min', 'std::max': 'max'}

class Cfg:
    def __init__(self, fn):
        self.fn = fn; self.blocks = []; self.entry = None; self.exit = None
        self.params = []; self.this = None; self.regions = []; self.loops = []; self.inlined = set()
        self.retvar = None
    def reachable(self):
        seen = set(); st = [self.entry]; order = []
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b); order.append(b)
            for s in succs(b): st.append(s)
        return seen
    def finish(self):
        live = self.reachable()
        self.pruned = [b for b in self.blocks if b not in live]
        self.blocks = [b for b in self.blocks if b in live]
        for b in self.blocks: b.preds = []; b.succs = []
        for b in self.blocks:
            b.succs = succs(b)
            for s in b.succs: s.preds.append(b)
            for i, ins in enumerate(b.ins): ins.block = b; ins.idx = i
        return self
    def instrs(self):
        for b in self.blocks:
            for i in b.ins: yield i
    def rpo(self):
        seen = set(); out = []
        st = [(self.entry, iter(succs(self.entry)))]
        seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(succs(s)))); break
            else:
                out.append(b); st.pop()
        return out[::-1]
    def dump(self, f=sys.stdout):
        for b in self.blocks:
            print('%r: preds=%s' % (b, b.preds), file=f)
            for p in b.phis: print('   ', p, file=f)
            for i in b.ins: print('   ', i, '   @%s' % (i.loc,), file=f)
            print('    ->', b.term, file=f)

def succs(b):
    t = b.term
    if t is None: return []
    if t[0] == 'jmp': return [t[1]]
    if t[0] == 'br': return [t[2], t[3]]
    return []

NORETURN = {'exit', 'abort', '__assert_fail', '_exit'}

class Lowerer:
    """Lowers a function, inlining the callees that `inline(fn, depth)` accepts."""
    def __init__(self, prog, fn, inline=None, maxdepth=8):
        self.prog = prog; self.inline = inline or (lambda f, d: False)
        self.maxdepth = maxdepth
        self.cfg = Cfg(fn)
        self.n = 0
        self.cur = None
        self.ctx = ()
        self.stack = ()            # inlining stack: ((fn, call loc), ...)
        self.frames = []
        self.fn = fn
    # -- blocks
    def newb(self):
        b = Block(self.n); self.n += 1; b.ctx = self.ctx; self.cfg.blocks.append(b); return b
    def emit(self, ins):
        ins.ctx = self.ctx; ins.stack = self.stack; ins.fnname = self.frames[-1]['fn'].pretty
        self.cur.ins.append(ins); return ins
    def jmp(self, b):
        if self.cur.term is None: self.cur.term = ('jmp', b)
    def start(self, b): self.cur = b; b.ctx = self.ctx
    def br(self, e, t, f, loc=None):
        if self.cur.term is None:
            self.cur.term = ('br', e, t, f); self.cur.tloc = loc or e.loc; self.cur.tstack = self.stack
    # -- entry
    def run(self):
        fn = self.fn
        fr = self.frame(fn)
        self.frames.append(fr)
        b = self.newb(); self.cfg.entry = b; self.start(b)
        for p in fn.params:
            v = self.newvar(p, fn, 'param')
            self.cfg.params.append(v)
        if fn.rec and not fn.d.get('static'):
            t = Var('this', None, 'param'); fr['this'] = t; self.cfg.this = t
        ex = self.newb(); fr['exit'] = ex
        if fn.rt is not None and fn.rt.k != 'void':
            rv = Var('<ret>', fn.rt, 'temp'); fr['ret'] = rv
        self.cfg.retvar = fr.get('ret')
        self.ctor_inits(fn)
        self.stmt(fn.d['body'])
        self.jmp(ex)
        self.start(ex); ex.ctx = ()
        self.cfg.exit = ex
        ex.term = ('ret', E('ld', (E('var', (fr['ret'],), fn.rt),), fn.rt) if fr.get('ret') else None)
        return self.cfg.finish()
    def frame(self, fn):
        return {'fn': fn, 'vars': {}, 'this': None, 'exit': None, 'ret': None, 'brk': [], 'cont': [], 'labels': {}, 'dtors': [[]], 'unit': fn.unit, 'subst': {}}
    @property
    def fr(self): return self.frames[-1]
    def ty(self, i): return self.fr['unit'].types.get(i)
    def newvar(self, d, fn, kind):
        if 'g' in d:
            return self.gvar(d)
        v = Var(d['name'] or '<anon>', fn.unit.types.get(d.get('t')), kind, d.get('l'), fn.pretty)
        v.ctx = self.ctx
        self.fr['vars'][d['id']] = v
        return v
    def gvar(self, d):
        g = self.prog.__dict__.setdefault('_gvars', {})
        key = d['g']
        if key not in g:
            g[key] = Var(d['name'], self.ty(d.get('t')), 'static' if d.get('sl') else 'global', d.get('l'), None, key)
        return g[key]
    def ctor_inits(self, fn):
        for i in fn.d.get('inits', ()):
            if 'f' in i:
                th = self.fr['subst'].get(self.fr['this']) or E('ld', (E('var', (self.fr['this'],)),))
                lv = E('fld', (self.mkat(th, Int(0), None, None), fn.rec, i['f']))
                self.init_lv(lv, i['e'], fn.loc, written=i['written'])
            elif i['e'] is not None:
                x = i['e']
                while x['k'] == 'cast' and x['ck'] in ('NoOp', 'ConstructorConversion'): x = x['e']
                if x['k'] == 'ctor': self.ctor(x, self.fr['subst'].get(self.fr['this']) or E('ld', (E('var', (self.fr['this'],)),)), fn.loc)
                else: self.rv(i['e'])
    # -- statements
    def stmt(self, s):
        if s is None: return
        if self.cur.term is not None:
            self.start(self.newb())     # unreachable code
        k = s['k']; loc = s.get('l')
        m = getattr(self, 's_' + k, None)
        if m is None: raise AnalysisBroken('statement kind %s (%s) at %s' % (k, s.get('cls'), loc))
        m(s, loc)
    def s_block(self, s, loc):
        self.fr['dtors'].append([])
        for x in s['s']: self.stmt(x)
        self.end_scope(s.get('end'))
    def end_scope(self, endl=None):
        ds = self.fr['dtors'].pop()
        if self.cur.term is None:
            for v, m in reversed(ds): self.dtor_call(v, m)
    def dtor_call(self, v, m):
        if self.cur.term is not None: return
        self.do_call(m, None, [], E('addr', (E('var', (v,), v.ty),)), None, v.loc, dtor=True)
    def unwind(self, depth):
        for lst in reversed(self.fr['dtors'][depth:]):
            for v, m in reversed(lst): self.dtor_call(v, m)
    def s_null(self, s, loc): pass
    def s_expr(self, s, loc): self.rv(s['e'], void=True)
    def s_decl(self, s, loc):
        for d in s['vars']:
            if 'g' in d:
                v = self.gvar(d)
                if 'init' in d and d.get('sl'):
                    # static local: initialised once
                    self.emit(I('staticinit', d.get('l'), lv=E('var', (v,), v.ty)))
                    self.init_lv(E('var', (v,), v.ty), d['init'], d.get('l'), once=True)
                continue
            v = self.newvar(d, self.fr['fn'], 'local')
            dims = [Int(n) if isinstance(n, int) else self.rv(n) for n in d.get('vn') or () if n is not None]       # variable length
            self.emit(I('decl', d.get('l'), lv=E('var', (v,), v.ty), args=dims or None))
            if 'init' in d:
                self.init_lv(E('var', (v,), v.ty), d['init'], d.get('l'))
            if 'dtor' in d: self.fr['dtors'][-1].append((v, d['dtor']))
    def init_lv(self, lv, init, loc, once=False, written=True):
        t = lv.ty
        if init is None: return
        init0 = init
        if t is not None and t.k == 'ref':
            self.emit(I('set', loc, lv=lv, e=E('addr', (self.lvalue(init),), t, loc), ty=t)); return
        while init['k'] == 'cast' and init['ck'] in ('NoOp', 'ConstructorConversion'): init = init['e']
        if init['k'] == 'ctor':
            self.ctor(init, E('addr', (lv,), None, loc), loc); return
        if init['k'] == 'ilist':
            if t is not None and t.k == 'array':
                for i, x in enumerate(init['e']):
                    self.emit(I('set', loc, lv=E('at', (E('decay', (lv,)), Int(i)), t.p, loc), e=self.rv(x), ty=t.p))
                return
            vals = [self.rv(x) for x in init['e']]
            if t is not None and t.k == 'rec':
                r = self.prog.records.get(t.rec)
                if r and r['fields']:
                    for f, x in zip(r['fields'], vals):
                        self.emit(I('set', loc, lv=E('fld', (lv, t.rec, f['name']), f['ty'], loc), e=x, ty=f['ty']))
                return
            if len(vals) == 1: self.emit(I('set', loc, lv=lv, e=vals[0], ty=t))
            return
        if t is not None and t.k == 'array' and init['k'] == 'str':
            self.emit(I('set', loc, lv=E('at', (E('decay', (lv,)), Int(0)), t.p, loc), e=self.rv(init), ty=t.p)); return
        e = self.rv(init, hint=lv)
        self.emit(I('set', loc, lv=lv, e=e, ty=t, x='init'))
    def s_if(self, s, loc):
        self.fr['dtors'].append([])
        if s.get('init'): self.stmt(s['init'])
        if s.get('cv'): self.stmt(s['cv'])
        t = self.newb(); f = self.newb(); j = self.newb()
        self.condbr(s['c'], t, f)
        octx = self.ctx
        self.ctx = octx + (Ctx('then', node=s, loc=loc, ncond=t),)
        self.start(t); self.stmt(s['a']); self.ctx = octx; self.jmp(j)
        self.ctx = octx + (Ctx('else', node=s, loc=loc),)
        self.start(f); self.stmt(s.get('b')); self.ctx = octx; self.jmp(j)
        self.start(j)
        self.end_scope()
    def loop(self, s, loc, kind):
        self.fr['dtors'].append([])
        if kind in ('for',) and s.get('init'): self.stmt(s['init'])
        if kind == 'rfor':
            for q in ('range', 'begin', 'endst'): self.stmt(s[q])
        octx = self.ctx
        L = Ctx('loop', node=s, loc=loc, lkind=kind)
        L.pre = self.cur
        self.cfg.loops.append(L)
        self.ctx = octx + (L,)
        head = self.newb(); body = self.newb(); inc = self.newb()
        self.ctx = octx
        out = self.newb()
        L.head = head; L.body = body; L.inc = inc; L.out = out
        self.ctx = octx + (L,)
        if kind == 'do':
            self.jmp(body)
        else:
            self.jmp(head)
            self.start(head)
            if s.get('cv'): self.stmt(s['cv'])
            if s.get('c') is not None: self.condbr(s['c'], body, out)
            else: self.jmp(body)
        self.fr['brk'].append((out, len(self.fr['dtors']))); self.fr['cont'].append((inc if kind in ('for', 'rfor') else head, len(self.fr['dtors'])))
        self.start(body)
        if kind == 'rfor': self.stmt(s['var'])
        self.stmt(s['body'])
        self.fr['brk'].pop(); self.fr['cont'].pop()
        if kind in ('for', 'rfor'):
            self.jmp(inc); self.start(inc)
            if s.get('inc') is not None: self.rv(s['inc'], void=True)
            self.jmp(head)
        elif kind == 'while':
            self.jmp(head)
        else:
            self.jmp(head); self.start(head); self.condbr(s['c'], body, out)
        self.ctx = octx
        self.start(out)
        self.end_scope()
    def s_for(self, s, loc): self.loop(s, loc, 'for')
    def s_rfor(self, s, loc): self.loop(s, loc, 'rfor')
    def s_while(self, s, loc): self.loop(s, loc, 'while')
    def s_do(self, s, loc): self.loop(s, loc, 'do')
    def s_break(self, s, loc):
        b, d = self.fr['brk'][-1]; self.unwind(d); self.jmp(b)
    def s_continue(self, s, loc):
        b, d = self.fr['cont'][-1]; self.unwind(d); self.jmp(b)
    def s_return(self, s, loc):
        if 'e' in s and s['e'] is not None:
            if self.fr['ret'] is None: self.rv(s['e'], void=True)
            else:
                rt = self.fr['ret'].ty
                lv = E('var', (self.fr['ret'],), rt)
                if rt.k == 'ref': self.emit(I('set', loc, lv=lv, e=E('addr', (self.lvalue(s['e']),), rt), ty=rt, x='ret'))
                elif rt.k == 'rec': self.init_lv(lv, s['e'], loc)
                else: self.emit(I('set', loc, lv=lv, e=self.rv(s['e']), ty=rt, x='ret'))
        self.unwind(0)
        self.emit(I('retmark', loc, x=None))
        self.jmp(self.fr['exit'])
    def s_label(self, s, loc):
        b = self.fr['labels'].setdefault(s['name'], self.newb())
        self.jmp(b); self.start(b); self.stmt(s['s'])
    def s_goto(self, s, loc):
        b = self.fr['labels'].setdefault(s['name'], self.newb()); self.jmp(b)
    def s_switch(self, s, loc):
        v = self.rv(s['c'])
        out = self.newb()
        # collect cases
        cases = []
        body = s['body']
        def coll(x):
            if isinstance(x, dict):
                if x.get('k') in ('case', 'default'): cases.append(x)
                if x.get('k') == 'switch': return
                for y in x.values(): coll(y)
            elif isinstance(x, list):
                for y in x: coll(y)
        coll(body)
        tab = {}
        deft = out
        for c in cases:
            tab[id(c)] = self.newb()
        for c in cases:
            if c['k'] == 'default': deft = tab[id(c)]; continue
            nxt = self.newb()
            self.br(Bin('==', v, self.rv(c['v'])), tab[id(c)], nxt, c.get('l')); self.start(nxt)
        self.jmp(deft)
        old = self.fr.get('cases'); self.fr['cases'] = tab
        self.fr['brk'].append((out, len(self.fr['dtors'])))
        self.start(self.newb())
        self.cur.term = None
        self.stmt(body)
        self.fr['brk'].pop(); self.fr['cases'] = old
        self.jmp(out); self.start(out)
    def s_case(self, s, loc):
        b = self.fr['cases'][id(s)]; self.jmp(b); self.start(b); self.stmt(s['s'])
    s_default = s_case
    def s_asm(self, s, loc):
        self.emit(I('asm', loc, x=s))
    def s_try(self, s, loc):
        self.stmt(s['s'])
    def s_other(self, s, loc):
        for x in s.get('sub', ()): self.stmt(x)
    # -- OpenMP
    def s_omp(self, s, loc):
        d = s['d']
        cl = s.get('clauses', [])
        octx = self.ctx
        def clause(n): return [c for c in cl if c['c'] == n]
        def vars_of(*names):
            out = []
            for n in names:
                for c in clause(n):
                    for v in c.get('vars', []):
                        out.append((n, self.var_of_ref(v), c.get('op')))
            return out
        if d == 'barrier':
            self.emit(I('barrier', loc, x='explicit')); return
        if d in ('master', 'single', 'masked'):
            t = self.newb(); j = self.newb()
            C = Ctx('omp', d=d, loc=loc, node=s)
            self.br(E('ompcond', (d, C.id), None, loc), t, j, loc)
            self.ctx = octx + (C,); self.start(t); self.stmt(s['body']); self.ctx = octx
            self.jmp(j); self.start(j)
            if d == 'single' and not clause('nowait'): self.emit(I('barrier', loc, x='implicit'))
            return
        if d == 'critical':
            self.ctx = octx + (Ctx('omp', d=d, loc=loc, node=s),); self.stmt(s['body']); self.ctx = octx; return
        if d == 'atomic':
            self.ctx = octx + (Ctx('omp', d=d, loc=loc, node=s),); self.stmt(s['body']); self.ctx = octx; return
        if d in ('flush',):
            self.emit(I('fence', loc)); return
        par = d.startswith('parallel'); isfor = d.endswith('for') or d.endswith('for simd')
        if d in ('simd',):
            self.stmt(s['body']); return
        if not par and not isfor: raise AnalysisBroken('OpenMP directive %s at %s' % (d, loc))
        exprs = {}
        for c in cl:
            if 'e' in c and c['c'] in ('if', 'num_threads'): exprs[c['c']] = self.rv(c['e'])
        privs = vars_of('private', 'firstprivate', 'lastprivate', 'reduction')
        R = None
        if par:
            R = Ctx('omp', d='parallel', loc=loc, node=s, privs=privs, exprs=exprs)
            self.cfg.regions.append(R)
            self.emit(I('parallel', loc, x=R))
            self.ctx = octx + (R,)
            # body in its own block, so that region = blocks carrying R in ctx
            b = self.newb(); self.jmp(b); self.start(b)
            R.first = b
        if isfor:
            F = Ctx('omp', d='for', loc=loc, node=s, privs=privs, combined=par)
            cc = clause('collapse')
            F.collapse = int(cc[0]['e']['v']) if cc and cc[0]['e'] and cc[0]['e']['k'] == 'int' else 1
            F.pre = self.cur
            self.ctx = self.ctx + (F,)
            b = self.newb(); self.jmp(b); self.start(b)
            self.stmt(s['body'])
            self.ctx = self.ctx[:-1]
            b = self.newb(); self.jmp(b); self.start(b)
            if not par and not clause('nowait'): self.emit(I('barrier', loc, x='implicit'))
        else:
            self.stmt(s['body'])
        if par:
            R.last = self.cur
            self.ctx = octx
            b = self.newb(); self.jmp(b); self.start(b)
            self.emit(I('endparallel', loc, x=R))
    def var_of_ref(self, v):
        while v['k'] == 'cast': v = v['e']
        if v['k'] == 'var': return self.var(v)
        return None
    # -- expressions
    def var(self, a):
        if 'g' in a: return self.gvar(a)
        for fr in reversed(self.frames):
            if a['id'] in fr['vars'] and fr['unit'] is self.fr['unit']:
                return fr['vars'][a['id']]
            break
        # a variable that has not been declared on the way (should not happen)
        v = Var(a['name'], self.ty(a.get('t')), 'local', a.get('l'), self.fr['fn'].pretty)
        self.fr['vars'][a['id']] = v
        return v
    def effects(self, a):
        """Does evaluating this syntax tree have side effects (calls included)?"""
        if a is None: return False
        r = a.get('_eff')
        if r is None:
            r = False
            if a['k'] in ('asg', 'casg', 'new', 'delete', 'ctor', 'stmtexpr', 'lambda'): r = True
            elif a['k'] == 'un' and a['op'] in ('++', '--'): r = True
            elif a['k'] == 'call' and not (a['fn'] and self.callee_name(a['fn']) in PURE_STD): r = True
            else:
                for v in a.values():
                    if isinstance(v, dict) and self.effects(v): r = True
                    elif isinstance(v, list):
                        for y in v:
                            if isinstance(y, dict) and self.effects(y): r = True
            a['_eff'] = r
        return r
    def callee_name(self, f):
        while f and f['k'] == 'cast': f = f['e']
        if f and f['k'] in ('fn', 'memfn'): return f['name']
        return None
    def temp(self, ty, name='<t>'):
        v = Var(name, ty, 'temp'); v.ctx = self.ctx
        return E('var', (v,), ty)
    def hold(self, e, loc=None):
        """Keep the value of e across later side effects."""
        if e.k in ('int', 'float', 'str', 'null', 'fn', 'sizeof', 'tparm', 'addr', 'decay'): return e
        if e.k == 'ld' and e.a[0].k == 'var' and e.a[0].a[0].kind == 'temp': return e
        t = self.temp(e.ty); self.emit(I('set', loc or e.loc, lv=t, e=e, ty=e.ty))
        return E('ld', (t,), e.ty, e.loc)
    def condbr(self, a, t, f):
        k = a['k']
        if k == 'cast' and a['ck'] in ('IntegralToBoolean', 'PointerToBoolean', 'NoOp', 'FloatingToBoolean', 'IntegralCast') and a['e']['k'] in ('bin', 'un', 'call', 'cast', 'var', 'idx', 'mem', 'asg', 'casg', 'int'):
            return self.condbr(a['e'], t, f)
        if k == 'bin' and a['op'] == '&&':
            m = self.newb(); self.condbr(a['a'], m, f); self.start(m); return self.condbr(a['b'], t, f)
        if k == 'bin' and a['op'] == '||':
            m = self.newb(); self.condbr(a['a'], t, m); self.start(m); return self.condbr(a['b'], t, f)
        if k == 'un' and a['op'] == '!':
            return self.condbr(a['e'], f, t)
        if k == 'int':
            self.jmp(t if int(a['v']) else f); return
        e = self.rv(a)
        if e.k == 'int':
            self.jmp(t if e.a[0] else f); return
        self.br(e, t, f, a.get('l'))
    def mkat(self, p, i, ty, loc):
        if i.k == 'int' and i.a[0] == 0 and p.k == 'addr':
            return p.a[0]
        return E('at', (p, i), ty, loc)
    def lvalue(self, a):
        k = a['k']; ty = self.ty(a.get('t')); loc = a.get('l')
        if k == 'var':
            v = self.var(a)
            sub = self.fr['subst'].get(v)
            if v.ty is not None and v.ty.k == 'ref':
                p = sub if sub is not None else E('ld', (E('var', (v,), v.ty),), v.ty, loc)
                return self.mkat(p, Int(0), ty, loc)
            return E('var', (v,), ty, loc)
        if k == 'mem':
            if a['arrow']:
                b = self.rv(a['b']); return E('fld', (self.mkat(b, Int(0), None, loc), a.get('rec'), a['f']), ty, loc)
            return E('fld', (self.lvalue(a['b']), a.get('rec'), a['f']), ty, loc)
        if k == 'idx':
            b = self.rv(a['b'])
            if self.effects(a['i']): b = self.hold(b)
            i = self.rv(a['i'])
            return self.mkat(b, i, ty, loc)
        if k == 'un' and a['op'] == '*':
            return self.mkat(self.rv(a['e']), Int(0), ty, loc)
        if k == 'un' and a['op'] in ('++', '--') and not a['post']:
            lv = self.lvalue(a['e']); self.incdec(lv, a['op'], loc); return lv
        if k in ('asg', 'casg'):
            return self.assign(a)
        if k == 'cast':
            if a['ck'] in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'LValueBitCast', 'BaseToDerived', 'ConstructorConversion'):
                return self.lvalue(a['e'])
            # materialised temporary
        if k == 'call':
            nm = self.callee_name(a['fn'])
            if nm in PURE_STD:
                e = self.rv(a); t = self.temp(ty); self.emit(I('set', loc, lv=t, e=e, ty=ty)); return t
            e = self.rv(a, wantref=True)
            if e.k == 'ld' and e.ty is not None and e.ty.k == 'rec': return e.a[0]
            if e.ty is not None and e.ty.k != 'ref' and e.k == 'ld' and ty is not None and ty.k == 'rec': return e.a[0]
            return self.mkat(e, Int(0), ty, loc)
        if k == 'cond':
            t = self.temp(None)
            self.branchval(a, t, lambda x: E('addr', (self.lvalue(x),)))
            return self.mkat(E('ld', (t,)), Int(0), ty, loc)
        if k == 'bin' and a['op'] == ',':
            self.rv(a['a'], void=True); return self.lvalue(a['b'])
        if k == 'this':
            return E('at', (self.rv(a), Int(0)))
        if k == 'str':
            return E('at', (E('str', (a['v'],), ty, loc), Int(0)), ty, loc)
        # rvalue bound to reference: materialise
        t = self.temp(ty)
        if k == 'ctor': self.ctor(a, E('addr', (t,)), loc)
        else:
            e = self.rv(a)
            self.emit(I('set', loc, lv=t, e=e, ty=ty))
        return t
    def incdec(self, lv, op, loc):
        one = Int(1, None, loc)
        self.emit(I('set', loc, lv=lv, e=E('bin', ('+' if op == '++' else '-', E('ld', (lv,), lv.ty, loc), one), lv.ty, loc), ty=lv.ty, x='incdec'))
    def assign(self, a):
        loc = a.get('l')
        if a['k'] == 'asg':
            if self.effects(a['b']):
                e = self.rv(a['b']); 
                if self.effects(a['a']): e = self.hold(e)
                lv = self.lvalue(a['a'])
            else:
                lv = self.lvalue(a['a']); e = self.rv(a['b'])
            self.emit(I('set', loc, lv=lv, e=e, ty=lv.ty))
            return lv
        e = None
        if self.effects(a['b']):
            e = self.hold(self.rv(a['b']))
        lv = self.lvalue(a['a'])
        if e is None: e = self.rv(a['b'])
        self.emit(I('set', loc, lv=lv, e=E('bin', (a['op'], E('ld', (lv,), lv.ty, loc), e), self.ty(a.get('ct')) or lv.ty, loc), ty=lv.ty, x='casg'))
        return lv
    def branchval(self, a, t, f):
        bt = self.newb(); bf = self.newb(); j = self.newb()
        self.condbr(a['c'], bt, bf)
        self.start(bt); e = f(a['a']); self.emit(I('set', a.get('l'), lv=t, e=e, ty=t.ty)); self.jmp(j)
        self.start(bf); e = f(a['b']); self.emit(I('set', a.get('l'), lv=t, e=e, ty=t.ty)); self.jmp(j)
        self.start(j)
    def rv(self, a, void=False, wantref=False, hint=None):
        if a is None: return E('undef', ())
        k = a['k']; ty = self.ty(a.get('t')); loc = a.get('l')
        if k == 'int': return E('int', (int(a['v']),), ty, loc)
        if k == 'float': return E('float', (a['v'],), ty, loc)
        if k == 'str': return E('str', (a['v'],), ty, loc)
        if k == 'null': return E('null', (), ty, loc)
        if k == 'tparm':
            e = self.rv(a['e']); return E('tparm', (a['name'], e), ty, loc)
        if k == 'sizeof':
            return E('sizeof', (int(a.get('v', 0)), self.ty(a['at'])), ty, loc)
        if k == 'fn' or k == 'memfn': return E('fn', (a['m'],), ty, loc)
        if k == 'this':
            t = self.fr['this']
            sub = self.fr['subst'].get(t)
            if sub is not None: return sub
            return E('ld', (E('var', (t,), ty, loc),), ty, loc)
        if k == 'var':
            v = self.var(a)
            if v.ty is not None and v.ty.k == 'ref':
                lv = self.lvalue(a); return E('ld', (lv,), ty, loc)
            sub = self.fr['subst'].get(v)
            if sub is not None: return sub
            return E('ld', (E('var', (v,), ty, loc),), ty, loc)
        if k in ('mem', 'idx'):
            return E('ld', (self.lvalue(a),), ty, loc)
        if k == 'cast':
            ck = a['ck']
            if ck == 'LValueToRValue':
                x = a['e']
                if x['k'] == 'var':
                    return self.rv(x)
                if x['k'] == 'call' and self.callee_name(x['fn']) in PURE_STD: return self.rv(x)
                if x['k'] == 'cond' and not void and ty is not None and ty.k != 'rec':
                    t = self.temp(ty); self.branchval(x, t, lambda y: self.rv(dict(a, e=y))); return E('ld', (t,), ty, loc)
                lv = self.lvalue(x)
                if void: return E('undef', (), ty)
                return E('ld', (lv,), ty, loc)
            if ck == 'ArrayToPointerDecay':
                if a['e']['k'] == 'str': return self.rv(a['e'])
                return E('decay', (self.lvalue(a['e']),), ty, loc)
            if ck in ('NoOp', 'FunctionToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion', 'BuiltinFnToFnPtr'):
                return self.rv(a['e'], void=void, wantref=wantref)
            if ck == 'NullToPointer':
                return E('null', (), ty, loc)
            if ck == 'ToVoid':
                self.rv(a['e'], void=True); return E('undef', ())
            return E('cast', (ck, self.rv(a['e'], hint=hint)), ty, loc)
        if k == 'un':
            op = a['op']
            if op in ('++', '--'):
                lv = self.lvalue(a['e'])
                if a['post'] and not void:
                    t = self.temp(ty); self.emit(I('set', loc, lv=t, e=E('ld', (lv,), ty, loc), ty=ty))
                    self.incdec(lv, op, loc); return E('ld', (t,), ty, loc)
                self.incdec(lv, op, loc); return E('ld', (lv,), ty, loc)
            if op == '*': return E('ld', (self.lvalue(a),), ty, loc)
            if op == '&':
                lv = self.lvalue(a['e'])
                if lv.k == 'at' and lv.a[1].k == 'int' and lv.a[1].a[0] == 0: return lv.a[0]
                return E('addr', (lv,), ty, loc)
            if op == '__extension__' or op == '+': return self.rv(a['e'], void=void)
            e = self.rv(a['e'])
            if op == '-' and e.k == 'int': return E('int', (-e.a[0],), ty, loc)
            return E('un', (op, e), ty, loc)
        if k == 'bin':
            op = a['op']
            if op == ',':
                self.rv(a['a'], void=True); return self.rv(a['b'], void=void)
            if op in ('&&', '||') and (self.effects(a['a']) or self.effects(a['b'])):
                t = self.temp(ty); bt = self.newb(); bf = self.newb(); j = self.newb()
                self.condbr(a, bt, bf)
                self.start(bt); self.emit(I('set', loc, lv=t, e=Int(1, ty), ty=ty)); self.jmp(j)
                self.start(bf); self.emit(I('set', loc, lv=t, e=Int(0, ty), ty=ty)); self.jmp(j)
                self.start(j); return E('ld', (t,), ty, loc)
            x = self.rv(a['a'])
            if self.effects(a['b']): x = self.hold(x)
            y = self.rv(a['b'])
            return E('bin', (op, x, y), ty, loc)
        if k in ('asg', 'casg'):
            lv = self.assign(a)
            return E('ld', (lv,), ty, loc)
        if k == 'cond':
            if void or self.effects(a['c']) or self.effects(a['a']) or self.effects(a['b']) or (ty is not None and ty.k == 'void'):
                if void or ty is None or ty.k == 'void':
                    bt = self.newb(); bf = self.newb(); j = self.newb()
                    self.condbr(a['c'], bt, bf)
                    self.start(bt); self.rv(a['a'], void=True); self.jmp(j)
                    self.start(bf); self.rv(a['b'], void=True); self.jmp(j)
                    self.start(j); return E('undef', ())
                t = self.temp(ty); self.branchval(a, t, self.rv); return E('ld', (t,), ty, loc)
            return E('cond', (self.rv(a['c']), self.rv(a['a']), self.rv(a['b'])), ty, loc)
        if k == 'call': return self.call(a, void, wantref)
        if k == 'new':
            args = []
            if a.get('arr') and a.get('n'): args = [self.rv(a['n'])]
            if a.get('place'):
                for p in a['place']: self.rv(p)
            t = self.temp(ty)
            self.emit(I('call', loc, dst=t, callee='operator new[]' if a['arr'] else 'operator new', args=args, ty=self.ty(a['at'])))
            if a.get('init'):
                if a['init']['k'] == 'ctor': self.ctor(a['init'], E('ld', (t,), ty), loc, arr=a['arr'])
                elif a['init']['k'] != 'ilist':
                    self.emit(I('set', loc, lv=E('at', (E('ld', (t,), ty), Int(0)), ty.p if ty else None), e=self.rv(a['init']), ty=ty.p if ty else None))
            return E('ld', (t,), ty, loc)
        if k == 'delete':
            e = self.hold(self.rv(a['e']))
            if a.get('dtor'):
                # delete of a null pointer does nothing
                t = self.newb(); j = self.newb()
                self.br(Bin('!=', e, E('null', ())), t, j, loc)
                self.start(t)
                self.do_call(a['dtor'], None, [], e, None, loc, dtor=True)
                self.emit(I('call', loc, callee='operator delete[]' if a['arr'] else 'operator delete', args=[e]))
                self.jmp(j); self.start(j)
            else:
                self.emit(I('call', loc, callee='operator delete[]' if a['arr'] else 'operator delete', args=[e]))
            return E('undef', ())
        if k == 'ctor':
            if a.get('copy') and len(a['args']) == 1 and hint is None:
                pass
            t = self.temp(ty); self.ctor(a, E('addr', (t,)), loc); return E('ld', (t,), ty, loc)
        if k == 'ilist':
            vals = [self.rv(x) for x in a['e']]
            return vals[0] if len(vals) == 1 else E('undef', (), ty, loc)
        if k == 'stmtexpr':
            self.stmt(a['s']); return E('undef', (), ty, loc)
        if k == 'lambda':
            self.emit(I('lambda', loc, x=a)); return E('undef', (), ty, loc)
        if k == 'other':
            if a.get('cls') == 'CXXThrowExpr':
                for x in a.get('sub', ()): self.rv(x)
                if self.cur.term is None: self.cur.term = ('unreach', 'throw')
                self.start(self.newb())
                return E('undef', ())
            for x in a.get('sub', ()): self.rv(x)
            return E('undef', (), ty, loc)
        raise AnalysisBroken('expression kind %s at %s' % (k, loc))
    def args(self, al, pts):
        out = []
        for n, x in enumerate(al):
            pt = self.ty(pts[n]) if n < len(pts) else None
            if pt is not None and pt.k == 'ref':
                e = E('addr', (self.lvalue(x),), pt, x.get('l'))
                if e.a[0].k == 'at' and e.a[0].a[1].k == 'int' and e.a[0].a[1].a[0] == 0: e = e.a[0].a[0]
            elif pt is not None and pt.k == 'rec':
                t = self.temp(pt); self.init_lv(t, x, x.get('l')); e = E('ld', (t,), pt)
            else:
                e = self.rv(x)
            if any(self.effects(y) for y in al[n + 1:]): e = self.hold(e)
            out.append(e)
        return out
    def ctor(self, a, this, loc, arr=False):
        args = self.args(a['args'], a['pt'])
        self.do_call(a['m'], a['name'], args, this, None, loc)
    def call(self, a, void, wantref):
        f = a['fn']; loc = a.get('l'); ty = self.ty(a.get('t'))
        while f['k'] == 'cast' and f['ck'] in ('FunctionToPointerDecay', 'NoOp', 'BuiltinFnToFnPtr'): f = f['e']
        if f['k'] == 'fn' and f['name'] in PURE_STD and len(a['args']) == 2:
            def val(x):
                if x['k'] in ('var', 'mem', 'idx') or (x['k'] == 'un' and x['op'] == '*'):
                    return self.rv(x)
                if x['k'] == 'cast' and x['ck'] == 'NoOp': return val(x['e'])
                return self.rv(x)
            x = val(a['args'][0])
            if self.effects(a['args'][1]): x = self.hold(x)
            y = val(a['args'][1])
            return E('bin', (PURE_STD[f['name']], x, y), ty, loc)
        this = None
        al = list(a['args'])
        pts = f.get('pt', [])
        if f['k'] == 'memfn':
            if f['arrow']: this = self.rv(f['b'])
            else:
                lv = self.lvalue(f['b'])
                this = lv.a[0] if lv.k == 'at' and lv.a[1].k == 'int' and lv.a[1].a[0] == 0 else E('addr', (lv,), None, loc)
            if any(self.effects(x) for x in al): this = self.hold(this)
            m, nm = f['m'], f['name']
        elif f['k'] == 'fn':
            m, nm = f['m'], f['name']
            if a.get('opmeth'):
                lv = self.lvalue(al[0]); this = lv.a[0] if lv.k == 'at' and lv.a[1].k == 'int' and lv.a[1].a[0] == 0 else E('addr', (lv,), None, loc)
                al = al[1:]
        else:
            m, nm = None, '<indirect>'
            fe = self.rv(f); 
        args = self.args(al, pts)
        # a few standard helpers
        if nm == 'std::swap' and len(args) == 2:
            l1 = self.mkat(args[0], Int(0), None, loc); l2 = self.mkat(args[1], Int(0), None, loc)
            t = self.temp(l1.ty); self.emit(I('set', loc, lv=t, e=E('ld', (l1,), l1.ty), ty=l1.ty))
            self.emit(I('set', loc, lv=l1, e=E('ld', (l2,), l2.ty), ty=l1.ty)); self.emit(I('set', loc, lv=l2, e=E('ld', (t,), l1.ty), ty=l2.ty))
            return E('undef', ())
        isref = wantref
        dst = None
        if not void or True:
            if ty is not None and ty.k != 'void':
                dst = self.temp(ty, '<%s>' % (nm or '').split('::')[-1])
        r = self.do_call(m, nm, args, this, dst, loc, virt=f.get('virt'), wantref=wantref, noret=f.get('noret'))
        return r if r is not None else E('undef', ())
    def do_call(self, m, nm, args, this, dst, loc, dtor=False, virt=False, wantref=False, noret=False):
        fn = self.prog.fns.get(m) if m else None
        if fn is not None and not virt and len(self.frames) <= self.maxdepth and all(fr['fn'] is not fn for fr in self.frames) and self.inline(fn, len(self.frames)):
            return self.inline_call(fn, args, this, dst, loc)
        ins = self.emit(I('call', loc, callee=m or nm, args=args, this=this, dst=dst, x={'name': nm or (fn.name if fn else m), 'dtor': dtor, 'wantref': wantref}))
        if (nm in NORETURN) or noret:
            if self.cur.term is None: self.cur.term = ('unreach', nm)
            self.start(self.newb())
        if dst is not None: return E('ld', (dst,), dst.ty, loc)
        return None
    def assigned_params(self, fn):
        r = fn.d.get('_asgp')
        if r is None:
            r = set()
            def lvroot(x):
                while x and x['k'] == 'cast': x = x['e']
                if x and x['k'] == 'var' and 'id' in x: r.add(x['id'])
            def w(x):
                if isinstance(x, dict):
                    if x.get('k') in ('asg', 'casg'): lvroot(x['a'])
                    elif x.get('k') == 'un' and x.get('op') in ('++', '--', '&'): lvroot(x['e'])
                    elif x.get('k') == 'call':
                        pts = (x['fn'] or {}).get('pt') or ((x['fn'] or {}).get('e') or {}).get('pt') or []
                        for n, y in enumerate(x['args']):
                            if n < len(pts):
                                t = fn.unit.types.get(pts[n])
                                if t is not None and t.k == 'ref' and not (t.p and t.p.const): lvroot(y)
                    elif x.get('k') == 'omp':
                        for c in x.get('clauses', []):
                            if c['c'] in ('private', 'firstprivate', 'lastprivate', 'reduction'):
                                for v in c.get('vars', []): lvroot(v)
                    for y in x.values():
                        if isinstance(y, (dict, list)): w(y)
                elif isinstance(x, list):
                    for y in x: w(y)
            w(fn.d['body']); w(fn.d.get('inits', []))
            fn.d['_asgp'] = r
        return r
    def invariant(self, e):
        if e.k == 'ld' and e.a[0].k == 'var' and e.a[0].a[0].kind == 'param' and e.a[0].a[0] in self.frames[0]['vars'].values():
            asg = self.assigned_params(self.fn)
            return not any(self.frames[0]['vars'].get(i) is e.a[0].a[0] for i in asg)
        return all(x.k in ('int', 'float', 'str', 'null', 'tparm', 'addr', 'var', 'fld', 'decay', 'sizeof', 'cast') and not (x.k == 'fld' and x.a[0].k == 'at') for x in e.walk()) 
    def inline_call(self, fn, args, this, dst, loc):
        self.cfg.inlined.add(fn.m)
        asg = self.assigned_params(fn)
        fr = self.frame(fn)
        binds = []
        octx, ostack = self.ctx, self.stack
        for p, a in zip(fn.params, args):
            binds.append((p, a))
        self.frames.append(fr)
        self.stack = ostack + ((fn.pretty, tuple(loc) if loc else None, fn.m),)
        for p, a in binds:
            v = self.newvar(p, fn, 'local'); v.origin = a
            if p['id'] not in asg and self.invariant(a):
                fr['subst'][v] = a
                continue
            self.emit(I('set', loc, lv=E('var', (v,), v.ty), e=a, ty=v.ty, x='param'))
        if fn.rec and not fn.d.get('static'):
            t = Var('this', None, 'local'); t.ctx = self.ctx; fr['this'] = t
            if this is not None:
                if self.invariant(this): fr['subst'][t] = this
                else: self.emit(I('set', loc, lv=E('var', (t,)), e=this, x='param'))
        ex = self.newb(); fr['exit'] = ex
        if fn.rt is not None and fn.rt.k != 'void':
            fr['ret'] = Var('<ret:%s>' % fn.short, fn.rt, 'temp'); fr['ret'].ctx = self.ctx
        self.ctor_inits(fn)
        self.stmt(fn.d['body'])
        self.jmp(ex)
        self.frames.pop(); self.stack = ostack; self.ctx = octx
        self.start(ex)
        if fr['ret'] is not None:
            return E('ld', (E('var', (fr['ret'],), fn.rt),), fn.rt, loc)
        return None

def lower(prog, fn, inline=None, maxdepth=8):
    return Lowerer(prog, fn, inline, maxdepth).run()

# ----------------------------------------------------------------------------
# dominators, SSA
# ----------------------------------------------------------------------------

def promote_outparams(cfg):
    """Turns *p into a scalar variable for every pointer parameter p of the function that is
    never reassigned and used only as *p. Returns {param: variable}."""
    def isp(e): return e.k == 'ld' and e.a[0].k == 'var'
    cand = {v: None for v in cfg.params if v.ty is not None and v.ty.k == 'ptr' and v.ty.p is not None and v.ty.p.k in ('ptr', 'int', 'bool') and not v.ty.p.const}
    def scan(e):
        if e.k == 'at' and isp(e.a[0]) and e.a[0].a[0].a[0] in cand and e.a[1].k == 'int' and e.a[1].a[0] == 0: return
        if e.k == 'var' and e.a[0] in cand: cand.pop(e.a[0])
        for x in e.kids(): scan(x)
    for ins in cfg.instrs():
        for e in ins.exprs(): scan(e)
    for b in cfg.blocks:
        if b.term and b.term[0] in ('br', 'ret') and b.term[1] is not None: scan(b.term[1])
    out = {}
    for v in cand:
        nv = Var('*' + v.name, v.ty.p, 'param', v.loc, v.fn); out[v] = nv
    if not out: return out
    def ren(e):
        if e.k == 'at' and isp(e.a[0]) and e.a[0].a[0].a[0] in out and e.a[1].k == 'int' and e.a[1].a[0] == 0:
            return E('var', (out[e.a[0].a[0].a[0]],), e.ty, e.loc)
        ch = False; na = []
        for x in e.a:
            if isinstance(x, E):
                y = ren(x); ch |= y is not x; na.append(y)
            else: na.append(x)
        return E(e.k, tuple(na), e.ty, e.loc) if ch else e
    for ins in cfg.instrs():
        if ins.e is not None: ins.e = ren(ins.e)
        if ins.lv is not None: ins.lv = ren(ins.lv)
        if ins.this is not None: ins.this = ren(ins.this)
        if ins.args: ins.args = [ren(a) for a in ins.args]
    for b in cfg.blocks:
        if b.term and b.term[0] in ('br', 'ret') and b.term[1] is not None: b.term = (b.term[0], ren(b.term[1])) + tuple(b.term[2:])
    cfg.params = cfg.params + list(out.values())
    cfg.promoted = out
    return out

def dominators(cfg, reverse=False):
    if not reverse:
        order = cfg.rpo(); entry = cfg.entry; P = lambda b: b.preds
    else:
        raise NotImplementedError
    idx = {b: i for i, b in enumerate(order)}
    idom = {entry: entry}
    changed = True
    while changed:
        changed = False
        for b in order:
            if b is entry: continue
            new = None
            for p in P(b):
                if p in idom:
                    if new is None: new = p
                    else:
                        x, y = p, new
                        while x is not y:
                            while idx[x] > idx[y]: x = idom[x]
                            while idx[y] > idx[x]: y = idom[y]
                        new = x
            if idom.get(b) is not new:
                idom[b] = new; changed = True
    return idom, order

def dominates(idom, a, b):
    while True:
        if a is b: return True
        n = idom.get(b)
        if n is None or n is b: return False
        b = n

class SVar:
    """One SSA name."""
    __slots__ = ('var', 'n', 'd', 'kind', 'block')
    _n = itertools.count()
    def __init__(self, var, kind, d=None, block=None):
        self.var = var; self.n = next(SVar._n); self.kind = kind; self.d = d; self.block = block
    def __repr__(self): return '%s.%d' % (self.var.name, self.n)
    @property
    def uid(self): return 's%d' % self.n
    key = uid

class Phi:
    __slots__ = ('sv', 'var', 'ops', 'block')
    def __init__(self, var, block): self.var = var; self.ops = {}; self.block = block; self.sv = None
    def __repr__(self): return '%r = phi(%s)' % (self.sv, ', '.join('%r:%r' % (b, s) for b, s in self.ops.items()))

def constref(a):
    return a.ty is not None and a.ty.k == 'ref' and a.ty.p is not None and a.ty.p.const

def scalar(ty): return ty is None or ty.k in ('int', 'bool', 'ptr', 'ref', 'float')

def ssa(cfg, keep=()):
    """Rewrites the CFG to SSA over the scalar locals whose address does not escape.
    A local whose address is passed directly to a call is redefined by that call."""
    bad = set()
    seen = set()
    def scan(e, top=False):
        if e.k == 'addr' and e.a[0].k == 'var':
            if not top: bad.add(e.a[0].a[0])
            return
        if e.k == 'decay' and e.a[0].k == 'var': bad.add(e.a[0].a[0]); return
        if e.k == 'var': seen.add(e.a[0])
        for x in e.kids(): scan(x)
    for ins in cfg.instrs():
        if ins.op == 'call':
            for a in ins.args: scan(a, True)
            if ins.this is not None: scan(ins.this, True)
            if ins.dst is not None: scan(ins.dst)
        else:
            for e in ins.exprs(): scan(e)
    for b in cfg.blocks:
        if b.term and b.term[0] in ('br', 'ret') and b.term[1] is not None: scan(b.term[1])
    for v in cfg.params: seen.add(v)
    if cfg.this is not None: seen.add(cfg.this)
    vs = {v for v in seen if v.kind in ('local', 'param', 'temp') and v not in bad and v not in keep and (v.ty is None or scalar(v.ty))}
    cfg.ssavars = vs
    # definitions
    defs = {v: set() for v in vs}
    def outs(ins):
        o = []
        if ins.op == 'set' and ins.lv.k == 'var' and ins.lv.a[0] in vs: o.append(ins.lv.a[0])
        if ins.op == 'decl' and ins.lv.a[0] in vs: o.append(ins.lv.a[0])
        if ins.op == 'call':
            if ins.dst is not None and ins.dst.k == 'var' and ins.dst.a[0] in vs: o.append(ins.dst.a[0])
            for a in list(ins.args) + ([ins.this] if ins.this is not None else []):
                if a.k == 'addr' and a.a[0].k == 'var' and a.a[0].a[0] in vs and not constref(a): o.append(a.a[0].a[0])
        return o
    for b in cfg.blocks:
        for ins in b.ins:
            for v in outs(ins): defs[v].add(b)
    idom, order = dominators(cfg)
    cfg.idom = idom; cfg.order = order
    df = {b: set() for b in cfg.blocks}
    for b in cfg.blocks:
        if len(b.preds) >= 2:
            for p in b.preds:
                r = p
                while r is not idom[b]:
                    df[r].add(b); r = idom[r]
    # liveness-pruned phis
    use = {b: set() for b in cfg.blocks}; kill = {b: set() for b in cfg.blocks}
    for b in cfg.blocks:
        u, kset = use[b], kill[b]
        def usev(e, top=False):
            for x in e.walk():
                if x.k == 'var' and x.a[0] in vs and x.a[0] not in kset: u.add(x.a[0])
        for ins in b.ins:
            if ins.e is not None: usev(ins.e)
            if ins.this is not None: usev(ins.this)
            for a in ins.args or (): usev(a)
            if ins.lv is not None and ins.lv.k != 'var': usev(ins.lv)
            for v in outs(ins): kset.add(v)
        if b.term and b.term[0] in ('br', 'ret') and b.term[1] is not None: usev(b.term[1])
    exitvars = [v for v in getattr(cfg, 'promoted', {}).values() if v in vs]
    use[cfg.exit] |= set(exitvars)
    livein = {b: set(use[b]) for b in cfg.blocks}
    ch = True
    while ch:
        ch = False
        for b in reversed(order):
            lo = set()
            for s in b.succs: lo |= livein[s]
            n = use[b] | (lo - kill[b])
            if n != livein[b]: livein[b] = n; ch = True
    for v in sorted(vs, key=lambda v: (len(v.uid), v.uid)):
        work = list(defs[v]); has = set()
        while work:
            x = work.pop()
            for y in df[x]:
                if y not in has:
                    has.add(y)
                    if v in livein[y]:
                        y.phis.append(Phi(v, y))
                    if y not in defs[v]: work.append(y)
    stacks = {v: [] for v in vs}
    for v in cfg.params:
        if v in vs: stacks[v].append(SVar(v, 'param'))
    if cfg.this is not None and cfg.this in vs: stacks[cfg.this].append(SVar(cfg.this, 'param'))
    cfg.paramsv = {v: stacks[v][0] for v in list(cfg.params) + ([cfg.this] if cfg.this else []) if v in vs}
    undefs = {}
    def top(v):
        if stacks[v]: return stacks[v][-1]
        if v not in undefs: undefs[v] = SVar(v, 'undef')
        return undefs[v]
    memo = {}
    def ren(e):
        if e.k == 'ld' and e.a[0].k == 'var' and e.a[0].a[0] in vs:
            return E('ssa', (top(e.a[0].a[0]),), e.ty, e.loc)
        ch = False; na = []
        for x in e.a:
            if isinstance(x, E):
                y = ren(x); ch |= y is not x; na.append(y)
            else: na.append(x)
        return E(e.k, tuple(na), e.ty, e.loc) if ch else e
    kids = {b: [] for b in cfg.blocks}
    for b in cfg.blocks:
        if b is not cfg.entry: kids[idom[b]].append(b)
    sys.setrecursionlimit(100000)
    def visit(b):
        pushed = []
        for p in b.phis:
            p.sv = SVar(p.var, 'phi', p, b); stacks[p.var].append(p.sv); pushed.append(p.var)
        for ins in b.ins:
            if ins.e is not None: ins.e = ren(ins.e)
            if ins.this is not None: ins.this = ren(ins.this)
            if ins.args:
                ins.args = [ren(a) for a in ins.args]
                # value of a scalar local handed over by reference
                for n, a in enumerate(ins.args):
                    if a.k == 'addr' and a.a[0].k == 'var' and a.a[0].a[0] in vs:
                        ins.refin = dict(ins.refin or {}); ins.refin[n] = E('ssa', (top(a.a[0].a[0]),), a.a[0].ty, a.loc)
            if ins.lv is not None and ins.lv.k != 'var': ins.lv = ren(ins.lv)
            if ins.dst is not None and ins.dst.k != 'var': ins.dst = ren(ins.dst)
            os_ = outs_ssa(ins)
            ins.outs = []
            for v, how in os_:
                sv = SVar(v, how, ins, b); stacks[v].append(sv); pushed.append(v); ins.outs.append(sv)
        if b.term and b.term[0] in ('br', 'ret') and b.term[1] is not None:
            b.term = (b.term[0], ren(b.term[1])) + tuple(b.term[2:])
        if b is cfg.exit:
            cfg.exitvals = {v: top(v) for v in exitvars}
        for s in b.succs:
            for p in s.phis: p.ops[b] = top(p.var)
        return pushed
    def outs_ssa(ins):
        o = []
        if ins.op == 'set' and ins.lv.k == 'var' and ins.lv.a[0] in vs: o.append((ins.lv.a[0], 'set'))
        if ins.op == 'decl' and ins.lv.a[0] in vs: o.append((ins.lv.a[0], 'decl'))
        if ins.op == 'call':
            if ins.dst is not None and ins.dst.k == 'var' and ins.dst.a[0] in vs: o.append((ins.dst.a[0], 'callret'))
            for a in list(ins.args) + ([ins.this] if ins.this is not None else []):
                if a.k == 'addr' and a.a[0].k == 'var' and a.a[0].a[0] in vs and not constref(a): o.append((a.a[0].a[0], 'callout'))
        return o
    # iterative dominator-tree walk
    st = [(cfg.entry, None)]
    work = [(cfg.entry, 0, None)]
    stack = [['enter', cfg.entry, None]]
    while stack:
        fr = stack[-1]
        if fr[0] == 'enter':
            fr[2] = visit(fr[1]); fr[0] = iter(kids[fr[1]]); continue
        nxt = next(fr[0], None)
        if nxt is not None: stack.append(['enter', nxt, None]); continue
        for v in fr[2]: stacks[v].pop()
        stack.pop()
    cfg.isssa = True
    return cfg

def definition(sv):
    """Defining expression of an SSA name, if it is a plain assignment."""
    if sv.kind == 'set': return sv.d.e
    return None

def resolve(e, depth=40):
    """Follow SSA copies: the expression with every 'set' name replaced by its definition
    (loads are kept as they are)."""
    if depth <= 0: return e
    if e.k == 'ssa':
        d = definition(e.a[0])
        if d is not None: return resolve(d, depth - 1)
        return e
    ch = False; na = []
    for x in e.a:
        if isinstance(x, E):
            y = resolve(x, depth - 1); ch |= y is not x; na.append(y)
        else: na.append(x)
    r = E(e.k, tuple(na), e.ty, e.loc) if ch else e
    if r.k == 'at' and r.a[1].k == 'int' and r.a[1].a[0] == 0 and r.a[0].k == 'addr': return r.a[0].a[0]
    return r

def strip_casts(e):
    while e.k == 'cast': e = e.a[1]
    return e

def locstr(l): return '%s:%s' % (l[0], l[1]) if l else '?'

if __name__ == '__main__':
    frontend()
    P = Program(); print('front end ready: %d functions, %d units' % (len(P.fns), len(P.tus) if hasattr(P, 'tus') else 0))
