"""What an operation may write: provenance of every store of an inlined function.

The memory a pointer may point to is described by roots: a parameter, an allocation site, a local
variable, a global, or ('in', root, step): whatever the field / the elements called step of a root
point to. Provenance follows SSA definitions, merges, casts, pointer arithmetic and - flow
insensitively - pointers kept in objects and arrays."""
from core import *
import par
from typestate import ACQ, cname, RETARG0

WRITERS = {  # position of the arguments written
  'memcpy': (0,), 'memmove': (0,), 'memset': (0,), 'strcpy': (0,), 'strncpy': (0,), 'strcat': (0,), 'sprintf': (0,), 'snprintf': (0,),
  'copy': (2,), 'copy_n': (2,), 'fill': (0,), 'fill_n': (0,), 'sort': (0,), 'stable_sort': (0,), 'transform': (2,), 'partial_sum': (2,), 'iota': (0,),
  'reverse': (0,), 'nth_element': (0,), 'partial_sort': (0,), 'rotate': (0,), 'unique': (0,), 'remove': (0,), 'random_shuffle': (0,), 'inclusive_scan': (2,), 'exclusive_scan': (2,),
  'fread': (0, 3), 'fgets': (0, 2), 'swap_ranges': (0, 2), 'iter_swap': (0, 1), 'swap': (0, 1), 'set_union': (4,), 'set_difference': (4,), 'merge': (4,), 'inplace_merge': (0,),
}
READERS = {'strlen', 'printf', 'puts', 'putchar', 'atoi', 'atof', 'strcmp', 'strncmp', 'memcmp', 'upper_bound', 'lower_bound', 'binary_search', 'min_element', 'max_element', 'accumulate', 'is_sorted', 'equal', 'count', 'find', 'isspace', 'tolower',
  'omp_get_thread_num', 'omp_get_num_threads', 'omp_get_max_threads', 'omp_get_wtime', 'getenv', 'fabs', 'abs', 'sqrt', 'pow', 'log', 'exp', 'isnan', 'isinf', 'max', 'min', '_mm_pause', '__rdtsc', '_rdtsc', 'rand', 'distance', 'begin', 'end', 'size', 'empty', 'back', 'front', 'data', 'c_str', 'make_pair', 'equal_range', 'toupper', 'time', 'ctime', 'strerror', 'perror', 'omp_in_parallel', 'omp_get_level', 'numeric_limits'}
STREAM = {'fprintf', 'fputs', 'fputc', 'putc', 'fwrite', 'fflush', 'vfprintf', 'fclose', 'feof', 'ferror', 'fseek', 'ftell', 'rewind'}
ATOM = ('__sync_', '__atomic_')

def short(nm): return nm.split('::')[-1].split('<')[0]

class Prov:
    def __init__(self, P, cfg):
        self.P = P; self.cfg = cfg
        self.mem = {}           # (root, step) -> set of roots stored there
        self.busy = set(); self.memo = {}
        for _ in range(4):
            self.memo = {}
            n = sum(len(v) for v in self.mem.values())
            for ins in cfg.instrs():
                if ins.op == 'set' and not ins.outs:
                    v = self.prov(ins.e)
                    if not v: continue
                    for r, st in self.place(ins.lv): self.mem.setdefault((r, st), set()).update(v)
                elif ins.op == 'call' and ins.dst is not None and not ins.outs:
                    v = self.callprov(ins)
                    for r, st in self.place(ins.dst): self.mem.setdefault((r, st), set()).update(v)
            if sum(len(v) for v in self.mem.values()) == n: break
    def place(self, lv):
        """(root, step) of the cell an lvalue denotes"""
        st = ''
        x = lv
        while x.k == 'fld':
            st = '%s' % x.a[2] if not st else st; x = x.a[0]
        if x.k == 'at':
            return {(r, st or '*') for r in self.prov(x.a[0])}
        if x.k == 'var': return {(('var', x.a[0]), st)}
        return set()
    def lvroots(self, lv):
        x = lv
        while x.k == 'fld': x = x.a[0]
        if x.k == 'at': return self.prov(x.a[0])
        if x.k == 'var': return frozenset([('var', x.a[0])])
        return frozenset()
    def prov(self, e):
        k = e.key
        if k in self.memo: return self.memo[k]
        if k in self.busy: return frozenset()
        self.busy.add(k)
        try: r = frozenset(self._prov(e))
        finally: self.busy.discard(k)
        if not self.busy: self.memo[k] = r
        return r
    def _prov(self, e):
        k = e.k
        if k == 'ssa':
            s = e.a[0]
            if s.kind == 'set': return self.prov(s.d.e)
            if s.kind == 'phi':
                r = set()
                for o in s.d.ops.values(): r |= self.prov(E('ssa', (o,)))
                return r
            if s.kind == 'param': return {('param', s.var)}
            if s.kind == 'callret': return self.callprov(s.d)
            if s.kind == 'callout': return {('ext', cname(s.d))}
            return ()
        if k == 'ld':
            out = set()
            for r, st in self.place(e.a[0]): out |= self.content(r, st)
            return out
        if k in ('addr', 'decay'): return self.lvroots(e.a[0])
        if k == 'cast': return self.prov(e.a[1])
        if k == 'cond': return self.prov(e.a[1]) | self.prov(e.a[2])
        if k == 'bin' and e.a[0] in ('+', '-', 'min', 'max'):
            r = set()
            for x in e.a[1:]:
                if x.ty is None or x.ty.k in ('ptr', 'ref', 'array'): r |= self.prov(x)
            return r
        if k == 'str': return {('str',)}
        return ()
    def content(self, r, st):
        out = set(self.mem.get((r, st), ()))
        if r[0] == 'var':
            v = r[1]
            if v.kind in ('global', 'static'): out.add(('in', r, st))
            elif v.kind in ('param', 'out'):
                if st == '': out.add(('param', v))
                else: out.add(('in', r, st))
        elif r[0] == 'alloc': pass
        elif r[0] == 'str': pass
        else:
            d = 0; x = r
            while x[0] == 'in': x = x[1]; d += 1
            out.add(('in', r, st) if d < 4 else r)
        return out
    def callprov(self, ins):
        nm = cname(ins); s = short(nm)
        if nm in ACQ or s in ('malloc_huge_pages', 'allocate') or s.startswith('operator new'): return frozenset([('alloc', ins)])
        r = set()
        t = ins.dst.ty if ins.dst is not None else None
        if t is not None and t.k in ('int', 'bool', 'float'): return r
        for a in ins.args or ():
            if isp(a): r |= self.prov(a)
        if ins.this is not None: r |= {('in', x, '*') if x[0] not in ('var', 'alloc', 'in') else x for x in self.prov(ins.this)}
        return frozenset(r) or frozenset([('ext', nm)])
    # ---------------------------------------------------------------- writes
    def writes(self):
        """(instruction, roots written, what)"""
        for ins in self.cfg.instrs():
            if ins.op == 'set':
                if ins.outs: continue
                yield ins, self.lvroots(ins.lv), show(ins.lv)
            elif ins.op == 'call':
                for a in self.callwrites(ins):
                    yield ins, (self.prov(a)), '%s(.. %s ..)' % (cname(ins), show(a))
                if ins.dst is not None and not ins.outs: yield ins, self.lvroots(ins.dst), show(ins.dst)
    def callwrites(self, ins):
        nm = cname(ins); s = short(nm)
        if s.startswith('operator new') or nm in ACQ: return []
        if nm in ('free', '_mm_free') or s.startswith('operator delete') or s == 'deallocate': return list(ins.args[:1])
        if s.startswith(ATOM): return [] if s == '__sync_synchronize' else list(ins.args[:1])
        if s in WRITERS: return [ins.args[i] for i in WRITERS[s] if i < len(ins.args) and isp(ins.args[i])]
        if s in ('fscanf', 'sscanf'): return [a for a in ins.args[2 if s == 'sscanf' else 2:] if isp(a)]
        if s in READERS or s in STREAM: return []
        out = []
        fn = self.P.fns.get(ins.callee)
        if ins.this is not None:
            if fn is not None and fn.d.get('const') or isinstance(ins.x, dict) and ins.x.get('dtor') and fn is None: pass
            elif s in ('size', 'begin', 'end', 'empty', 'back', 'front', 'data', 'operator[]', 'c_str', 'at'): pass
            else: out.append(ins.this)
        for a in ins.args or ():
            if a.k == 'addr' and a.a[0].k == 'var' and a.a[0].a[0] in self.cfg.ssavars: continue
            if isp(a) and strip_casts(a).k not in ('str', 'null', 'fn'):
                t = a.ty
                if t is not None and t.p is not None and t.p.const or constref(a): continue
                out.append(a)
        return out

def isp(e): return e.ty is not None and e.ty.isptr or e.k in ('addr', 'decay')
def base(r):
    while r[0] == 'in': r = r[1]
    return r
def steps(r):
    s = []
    while r[0] == 'in': s.append(r[2]); r = r[1]
    return s[::-1]
def rshow(r):
    b = base(r); s = steps(r)
    n = b[1].name if b[0] in ('param', 'var') else b[0] if b[0] != 'ext' else 'result of %s' % b[1]
    for x in s: n += '[]' if x in ('*', '') else '->' + x
    return n

# -------------------------------------------------------------------- footprints
def field_of(lv):
    st = ''
    while lv.k == 'fld': st = lv.a[2]; lv = lv.a[0]
    return st
def is_file(v):
    t = v.ty
    while t is not None and t.k in ('ptr', 'ref'): t = t.p
    return t is not None and ('FILE' in t.s or '_IO_' in t.s)
def region(cfg, r, st=''):
    """name of caller-visible memory: position of the parameter (or the global) and the fields on the way"""
    b = base(r)
    if b[0] not in ('param', 'var'): return None
    v = b[1]
    if v.kind in ('global', 'static'): n = 'global ' + v.name
    elif v.name == 'this' and v not in cfg.params and (v.kind in ('param', 'this') or v is cfg.this): n = 'this'
    elif v.kind in ('param', 'out'):
        ps = [p.name for p in cfg.params]
        n = '#%d' % ps.index(v.name) if v.name in ps else 'this' if v.name == 'this' else None
        if n is None: return None
    else: return None
    if is_file(v): return None
    for x in steps(r): n += '[]' if x in ('*', '') else '->' + x
    return n + ('.' + st if st else '')
def footprint(P, fn):
    """region -> (instruction, description) of one write, for everything the function writes besides its own memory"""
    cfg = lower(P, fn, inline=lambda g, d: not g.file.startswith('/')); ssa(cfg)
    pv = Prov(P, cfg); W = {}; n = 0
    init = {(i.lv.a[0], tuple(i.loc or ())) for i in cfg.instrs() if i.op == 'staticinit' and i.lv.k == 'var'}
    for ins, rs, w in pv.writes():
        if any(r[0] == 'var' and (r[1], tuple(ins.loc or ())) in init for r in rs): continue     # initialisation of a static
        if ins.op == 'call' and (cname(ins) in ('free', '_mm_free') or 'delete' in cname(ins)): continue    # releasing is not writing (S04)
        n += 1
        st = field_of(ins.lv if ins.op == 'set' else E('null', ()))
        for r in rs:
            g = region(cfg, r, st)
            if g is not None: W.setdefault(g, (ins, w, r))
    return cfg, W, n

FPFILE = os.path.join(VERIF, 'analysis', 'footprint.txt')
def contracts():
    r = {}
    for l in open(FPFILE):
        m, pretty, w = l.rstrip('\n').split('|')
        r[m] = set(w.split(',')) if w else set()
    return r
def const_params(fn):
    out = {'#%d' % i for i, p in enumerate(fn.params) for t in [fn.unit.types[p['t']]] if t.k in ('ptr', 'ref') and t.p is not None and t.p.const}
    if fn.d.get('const'): out.add('this')
    return out
