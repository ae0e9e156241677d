"""S07/S08: failed input and output, bad numbers in files. Uses the fault propagation of faults.py."""
import re
from faults import *
import api

RAW = {'mm_read_mtx_crd_entry', 'mm_read_mtx_crd_size', 'mm_read_mtx_crd_data', 'mm_read_mtx_array_size', 'mm_read_mtx_crd', 'mm_read_unsymmetric_sparse'}
MSG = {'fprintf': 'stderr', 'perror': None}
FULL = 'full count'
CONV = re.compile(r'%(\*?)(\d*)(hh|h|ll|l|L|z|j|t|q)?([diouxXeEfFgGaAcspn]|\[\^?\]?[^\]]*\])')

def fmt(i):
    n = short(cname(i))
    k = {'fscanf': 1, 'sscanf': 1, 'fprintf': 1}.get(n)
    if k is None or k >= len(i.args): return None
    a = strip_casts(resolve(i.args[k]))
    return a.a[0].strip('"') if a.k == 'str' else None
def convs(f):
    return [c for c in CONV.findall(f.replace('%%', '')) if not c[0]]
def ret(i): return next((o for o in i.outs or () if o.kind == 'callret'), None)
def mode(i):
    a = strip_casts(resolve(i.args[1])) if len(i.args) > 1 else None
    return a.a[0].strip('"') if a is not None and a.k == 'str' else ''
def calls(cfg, names):
    for b in cfg.order:
        for n, i in enumerate(b.ins):
            if i.op == 'call' and short(cname(i)) in names: yield b, n, i

def rtype(f):
    try: return f.unit.types[f.d['rt']]
    except Exception: return None
def failed(f, cfg, F, b, mem):
    """does this exit report failure? None: the function has no way to report it"""
    v = F.retval(b, mem); t = rtype(f)
    if v is None:
        if f.rec == 'SpMP::CSR' and cfg.this is not None: return mem.get((('param', cfg.this), 'm'), TOP) == 0
        return None
    if v is BOT: return True
    if t is not None and t.k == 'bool': return v == 0
    if t is not None and t.isptr: return v in (NULLV, AN)
    return isnum(v) and v != 0 or v in (POS, BIG, NN)
def succeeded(f, cfg, F, b, mem):
    v = F.retval(b, mem); t = rtype(f)
    if v is None: return True
    if t is not None and t.k == 'bool': return v == 1
    return v == 0
def ends(F):
    for b, i, m in F.reached():
        if i is not None and i.op == 'call' and short(cname(i)) in END: return i
def badfile(F):
    for b, i, m in F.reached():
        if i is not None and i.op == 'call':
            k = STDIO.get(short(cname(i)))
            if k is not None and k < len(i.args) and F.ev(i.args[k], m) in NONE: return i
def message(i):
    n = short(cname(i))
    return n == 'perror' or n == 'fprintf' and i.args and 'stderr' in show(i.args[0]) or n in ('fputs', 'fwrite') and 'stderr' in show(i.args[-1])
def silent(cfg, F):
    """can an exit be reached without a message? (block graph of the followed paths)"""
    b0, idx = F.start
    def talks(b, k=0): return any(i.op == 'call' and message(i) for i in b.ins[k:])
    if talks(b0, idx): return False
    seen = set(); st = [b0]; first = True
    while st:
        b = st.pop()
        if not first and (b in seen or talks(b)): continue
        if not first: seen.add(b)
        first = False
        if b.term and b.term[0] == 'ret': return True
        st += [s for s in b.succs if (b, s) in F.edges]
    return False

def io_calls(cfg):
    rd = list(calls(cfg, set(READ) | {'fopen', 'freopen'})); wr = list(calls(cfg, set(WRITE) | {'ferror', 'fclose'}))
    return rd, wr

def s07(R, P, f, cfg, F, rd):
    def rep(rule, i, what): R.add(rule, locstr(i.loc or f.loc), '%s: %s' % (f.pretty, what), [f.pretty] + [x[0] for x in i.stack], key='%s|%s|%s' % (f.pretty, rule, short(cname(i))))
    if any(mode(i)[:1] == 'r' or short(cname(i)) in READ for _, _, i in rd): R.count('input_functions')
    for b, n, i in rd:
        nm = short(cname(i)); r = ret(i)
        inp = nm in READ or mode(i)[:1] == 'r'
        if nm in ('fopen', 'freopen', 'fgets'): vs = [AN]
        elif nm == 'fread': vs = [SHORT]
        elif fmt(i) is not None: vs = list(range(-1, len(convs(fmt(i)))))
        else: continue
        for v in vs:
            ck = fk(lf(i.args[2])) if nm == 'fread' else None; cv = loops.const(lf(i.args[2])) if nm == 'fread' else None
            prune = ()
            if nm == 'sscanf':          # the line may be read again in another way, which is judged at that call
                prune = {(x, s) for x in cfg.order if any(j.op == 'call' and short(cname(j)) in READ for j in x.ins) for s in x.succs if x is not b}
            asm = {r: v} if r is not None else {}
            few = inloop(F, cfg, b) and not (isnum(v) and v >= 0 and counts(F, cfg, b, n, asm, prune))       # otherwise the entry that could not be read is counted
            ex = F.after(b, n + 1, assume=asm, count=ck, countv=cv, eqprune=few, prune=prune)
            R.count('failures_assumed'); R.count('paths_to_exits', len(ex))
            what = 'the file cannot be opened' if nm == 'fopen' else '%s returns %s' % (nm, 'NULL' if v == AN else 'less than asked for' if v == SHORT else 'EOF' if v == -1 else v)
            e = ends(F)
            if e is not None: rep('ends the process', e, 'ends the process when %s (%s)' % (what, locstr(i.loc)))
            e = badfile(F)
            if e is not None: rep('uses a missing file', e, 'goes on using the file when %s' % what)
            if not inp:                     # a file opened for writing
                if rtype(f) is not None and rtype(f).k in ('int', 'bool') and any(failed(f, cfg, F, x, m) is False for x, m in ex): rep('failure not reported', i, 'reports success although %s' % what)
                elif silent(cfg, F) and not any(failed(f, cfg, F, x, m) for x, m in ex): rep('failure not reported', i, 'says nothing when %s' % what)
                continue
            if any(failed(f, cfg, F, x, m) is False for x, m in ex): rep('failure not reported', i, 'reports success although %s' % what)
            if not ex and v in (-1, 0, AN, SHORT) and nm != 'sscanf': rep('never ends', i, 'does not end when %s' % what)

def inloop(F, cfg, b):
    F.counter(E('int', (0,)), E('int', (0,)))
    return any(b in body and any(p.sv in F.counted for p in h.phis) for h, body in loops.natural(cfg).items())
def counts(F, cfg, b, n, asm, prune):
    F.counter(E('int', (0,)), E('int', (0,)))
    incs = {x for h, body in loops.natural(cfg).items() if b in body for x in body for i in x.ins if any(o.kind == 'set' and any(F.inc(o, s) for s in F.counted if s.kind == 'phi') for o in i.outs or ())}
    if not incs: return False
    F.after(b, n + 1, assume=asm, prune=set(prune) | {(q, b) for q in cfg.order if b in q.succs})
    return bool(incs & F.exec)

def s07w(R, P, f, cfg, F, wr):
    def rep(rule, i, what): R.add(rule, locstr(i.loc or f.loc), '%s: %s' % (f.pretty, what), [f.pretty] + [x[0] for x in i.stack], key='%s|%s|%s' % (f.pretty, rule, short(cname(i))))
    ws = [(b, n, i) for b, n, i in wr if short(cname(i)) in WRITE and not message(i) and not screen(i)]
    if not ws: return
    R.count('output_functions')
    fe = {ret(i): POS for _, _, i in wr if short(cname(i)) == 'ferror' and ret(i) is not None}
    fc = {ret(i): -1 for _, _, i in wr if short(cname(i)) == 'fclose' and ret(i) is not None}
    t = rtype(f)
    for b, n, i in ws + [x for x in wr if short(cname(x[2])) == 'fclose']:
        nm = short(cname(i)); r = ret(i)
        if nm == 'fclose': a = {r: -1} if r is not None else {}
        else:
            a = dict(fe); a[r] = -1 if nm != 'fwrite' else SHORT
        ex = F.after(b, n + 1, assume=a, count=fk(lf(i.args[2])) if nm == 'fwrite' else None, countv=loops.const(lf(i.args[2])) if nm == 'fwrite' else None)
        R.count('failures_assumed'); R.count('paths_to_exits', len(ex))
        if nm == 'fclose' and not any(dom(cfg, x, (b, n)) for x in ws): continue       # nothing was written before
        if t is not None and t.k in ('int', 'bool'):
            if any(failed(f, cfg, F, x, m) is False for x, m in ex): rep('failure not reported', i, 'reports success although %s fails' % nm)
        elif ex and silent(cfg, F): rep('failure not reported', i, 'says nothing when %s fails' % nm)
    if t is not None and t.k in ('int', 'bool'):
        # all went well
        a = dict({k: 0 for k in fe}, **{k: 0 for k in fc}) if False else {}
        a.update({k: 0 for k in fe}); a.update({k: 0 for k in fc})
        a.update({ret(i): POS for _, _, i in ws if short(cname(i)) != 'fwrite' and ret(i) is not None})
        b, n, i = ws[0]
        ex = F.after(b, n + 1, assume=a)
        if len([1 for w in ws if dom(cfg, w, (b, n))]) == 0 and not any(succeeded(f, cfg, F, x, m) or F.retval(x, m) in (TOP, GE0) for x, m in ex): rep('success not reported', i, 'reports failure although everything was written')
        elif len(ws) <= 2 and any(not succeeded(f, cfg, F, x, m) for x, m in ex): rep('success not reported', i, 'may report failure although everything was written')
def screen(i):
    k = WRITE[short(cname(i))]
    return k < len(i.args) and show(i.args[k]) in ('stdout', 'stderr')
def dom(cfg, x, y):
    (b1, n1, _), (b2, n2) = x, y
    return n1 < n2 if b1 is b2 else dominates(cfg.idom, b1, b2)
def touches(P, f):
    """does the function reach the input and output functions of the C library? (call graph)"""
    if getattr(P, '_io', None) is None:
        men = api.callees(P); S = set(); st = [m for m in men if m in READ or m in WRITE or m in ('fopen', 'freopen')]
        while st:
            for g in men.get(st.pop(), ()):
                if g not in S: S.add(g); st.append(g)
        P._io = S
    return f.m in P._io

# ------------------------------------------------------------------------------------------------ bad numbers in files
INTCONV = {'d': True, 'i': True, 'u': True, 'x': True, 'X': True, 'o': True}
IMAX = 2147483647
def targets(i):
    """(argument, what kind) of what a call reads: 'int' (32 bit), 'array' of int"""
    n = short(cname(i))
    if n == 'fread':
        a = strip_casts(i.args[0]); t = elem(i.args[0])
        sz = loops.const(lf(i.args[1])); c = loops.const(lf(i.args[2]))
        if t is None and sz != 4: return
        if t is not None and not (t.k == 'int' and sz == 4): return
        yield i.args[0], 'int' if c == 1 and strip_casts(resolve(i.args[0])).k == 'addr' else 'array'
    else:
        f = fmt(i); k = {'fscanf': 2, 'sscanf': 2}.get(n)
        if f is None or k is None: return
        for c, a in zip(convs(f), i.args[k:]):
            if c[3] in INTCONV and c[2] == '': yield a, 'int'
def elem(e):
    while e.k == 'cast': e = e.a[1]
    return e.ty.p if e.ty is not None and e.ty.isptr else None
def ovf(F, e, mem):
    """does an int operation in e overflow under the assumption?"""
    if e.k == 'ssa':
        d = definition(e.a[0])
        return ovf(F, d, mem) if d is not None else False
    if e.k == 'bin' and e.a[0] in ('+', '-', '*') and e.ty is not None and e.ty.k == 'int' and wide(e) == 4:
        a, b = F.ev(e.a[1], mem), F.ev(e.a[2], mem)
        if isnum(a) and isnum(b):
            v = a + b if e.a[0] == '+' else a - b if e.a[0] == '-' else a*b
            if not -IMAX - 1 <= v <= IMAX: return True
    return any(ovf(F, x, mem) for x in e.a if isinstance(x, E))
def wide(e):
    w = 0
    for x in e.a[1:]:
        t = x.ty
        s = getattr(t, 'size', None) if t is not None else None
        w = max(w, {None: 4}.get(s, s))
        if t is not None and any(k in str(t) for k in ('long', 'size_t', 'unsigned')): w = 8
        if x.k == 'sizeof': w = 8
    return w
def accesses(i, b):
    es = [i.lv, i.e] if i is not None and i.op == 'set' else [i.dst, i.this] + list(i.args or ()) if i is not None and i.op == 'call' else []
    if i is None and b.term and len(b.term) > 1 and isinstance(b.term[1], E) and b.term[1].k != 'ompcond': es = [b.term[1]]
    st = [e for e in es if e is not None]
    while st:
        e = st.pop()
        if e.k == 'at': yield e
        st += [x for x in e.a if isinstance(x, E)]

def s08(R, P, f, cfg, F, rd):
    def rep(rule, i, what, tag): R.add(rule, locstr(i.loc if i is not None and i.loc else f.loc), '%s: %s' % (f.pretty, what), [f.pretty] + [x[0] for x in (i.stack if i is not None else ())], key='%s|%s|%s' % (f.pretty, rule, tag))
    raw = f.short in RAW
    for b, n, i in rd:
        nm = short(cname(i))
        if nm in ('fscanf', 'sscanf') and fmt(i) is not None: widths(R, f, i, rep)
        if nm == 'fgets': line(R, f, i, rep)
        if nm != 'sscanf': limit(R, cfg, F, b, i, rep)
        ok = {}
        if ret(i) is not None and fmt(i) is not None: ok = {ret(i): len(convs(fmt(i)))}
        name0 = None
        for a, kind in targets(i):
            x = strip_casts(resolve(a))
            name = show(a)
            if kind == 'int':
                key = sv = None
                if x.k == 'addr' and x.a[0].k == 'var':
                    sv = next((o for o in i.outs or () if o.kind == 'callout' and o.var is x.a[0].a[0]), None)
                    key = ('v', x.a[0].a[0])
                elif x.k == 'ssa' and x.a[0].kind == 'param': key = ('p', x.a[0].var)
                elif x.k == 'addr' and x.a[0].k == 'fld': key = F.mkey(x.a[0])
                if key is None: continue                     # an element of an array the caller passed
                local = key[0] == 'v'
                R.count('numbers_read')
                for v in (NEGV, IMAX, BIG):
                    asm = dict(ok)
                    if sv is not None: asm[sv] = v
                    F.params = {p: 1 for p in cfg.params if p.name == 'pad'}
                    if nm == 'fread' and ret(i) is not None: asm[ret(i)] = 1
                    go = lambda prune=(): F.after(b, n + 1, assume=asm, mem={key: v} if sv is None else None, prune=prune)
                    back = backedges(cfg, b)
                    once = None
                    if back: go(back); once = sinks(R, P, f, cfg, F, i, v, show(x.a[0]) if x.k == 'addr' else x.a[0].var.name, rep)      # until the next round of the loop
                    ex = go()
                    judge(R, P, f, cfg, F, i, ex, v, show(x.a[0]) if x.k == 'addr' else x.a[0].var.name, raw or not local, rep, once=once)
                if name0 is None and nm in ('fscanf', 'sscanf'):        # all numbers of the call are the largest at once
                    name0 = name
                    asm = dict(ok); mm = {}
                    for a2, k2 in targets(i):
                        x2 = strip_casts(resolve(a2))
                        if x2.k == 'addr' and x2.a[0].k == 'var':
                            for o in i.outs or ():
                                if o.kind == 'callout' and o.var is x2.a[0].a[0]: asm[o] = IMAX
                            mm[('v', x2.a[0].a[0])] = IMAX
                        elif x2.k == 'ssa' and x2.a[0].kind == 'param': mm[('p', x2.a[0].var)] = IMAX
                    ex = F.after(b, n + 1, assume=asm, mem=mm)
                    judge(R, P, f, cfg, F, i, ex, IMAX, 'each number', True, rep)
            else:
                ak, off = F.akey(a)
                if ak is None: continue
                R.count('arrays_read')
                cnt = lf(i.args[2])
                for v in (NEGV, BIG):
                    asm = {}
                    cov = coverage(F, cfg, ak, off, cnt)
                    R.count('validating_loops', len(cov))
                    for ex in stages(F, cfg, b, n + 1, {ak: v}, cov):
                        judge(R, P, f, cfg, F, i, ex, v, 'an element of ' + arr(a), False, rep, array=True)
def limit(R, cfg, F, b, i, rep):
    """arrays filled while the file has data: the position must be compared with a limit before"""
    for h, body in loops.natural(cfg).items():
        if b not in body: continue
        for x in body:
            for j in x.ins:
                es = [j.lv] if j.op == 'set' and j.lv.k == 'at' and not j.outs else [strip_casts(resolve(a)).a[0] for a in j.args or () if strip_casts(resolve(a)).k == 'addr'] if j is i else []
                for e in es:
                    if e.k != 'at': continue
                    ps = [p.sv for p in h.phis if uses2(e.a[1], p.sv) and any(q in body and F.inc(o, p.sv) for q, o in p.ops.items())]
                    if not ps: continue
                    R.count('filled_arrays')
                    if not any(guard(cfg, h, body, t, x) for t in body): rep('unchecked count', j, 'the position in %s is not limited while the file has data' % arr(e), arr(e))
def uses2(e, sv):
    e = strip_casts(resolve(e))
    if e.k == 'ssa': return e.a[0] is sv or lf(e, stop=(sv,)).get(('ssa', sv.uid)) is not None
    return any(uses2(x, sv) for x in e.a if isinstance(x, E))
def guard(cfg, h, body, t, x):
    """a test of a counter of this loop against something else that decides whether x runs"""
    if not t.term or t.term[0] != 'br' or not dominates(cfg.idom, t, x): return False
    tr, fa = t.term[2], t.term[3]
    if tr is fa or reaches(tr, x, body, h) and reaches(fa, x, body, h): return False
    c = strip_casts(resolve(t.term[1]))
    if c.k != 'bin' or c.a[0] not in ('<', '<=', '>', '>=', '==', '!='): return False
    for l, r in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
        if any(uses2(l, p.sv) and not uses2(r, p.sv) and any(inc_(o, p.sv) for q, o in p.ops.items() if q in body) for p in h.phis) and loops.const(lf(r)) is None: return True
    return False
def inc_(o, sv): return o is not sv
def reaches(s, x, body, h):
    seen = set(); st = [s]
    while st:
        q = st.pop()
        if q is x: return True
        if q in seen or q not in body or q is h: continue
        seen.add(q); st += q.succs
    return False
def stages(F, cfg, b, n, arr, cov):
    """runs in which each loop over all elements is left only after it has seen the bad element: first none of them is
    left normally, then each one that goes round is followed from there on"""
    def edges(S): return {e for h in S for e in cov[h]}
    yield F.after(b, n, arr=arr, prune=edges(cov))
    st = [(set(cov), F.val, dict(F.em), set(F.edges), 0)]; runs = 0
    while st:
        S, val, em, ed, depth = st.pop()
        for h in sorted(S, key=lambda x: x.id if hasattr(x, 'id') else 0):
            for q in cfg.order:
                if (q, h) in ed and dominates(cfg.idom, h, q) and runs < 40:
                    runs += 1
                    T = S - {h}
                    yield F.after(q, len(q.ins), arr=arr, prune=edges(T) | {(q, x) for x in q.succs if x is not h}, resume=(val, em[(q, h)]))
                    if depth < 2: st.append((T, dict(F.val), dict(F.em), set(F.edges), depth + 1))
def arr(a):
    return re.sub(r'\.\d+', '', show(a))
def judge(R, P, f, cfg, F, i, ex, v, name, sinksonly, rep, array=False, once=None):
    R.count('bad_values_assumed')
    stored, size, word = sinks(R, P, f, cfg, F, i, v, name, rep, array)
    stored |= once is not None and once[0]; size |= once is not None and once[1]
    if sinksonly or v == IMAX: return
    for b, m in ex:
        if failed(f, cfg, F, b, m) is False:
            if v == NEGV or array or stored and not size: rep('unchecked value', i, '%s may be %s and is accepted' % (name, word), name)
            break
def backedges(cfg, b):
    h, body = min(((h, body) for h, body in loops.natural(cfg).items() if b in body), key=lambda x: len(x[1]), default=(None, ()))
    return {(q, h) for q in body if h in q.succs}
def sinks(R, P, f, cfg, F, i, v, name, rep, array=False):
    word = 'negative' if v == NEGV else 'too large'
    sized = set(); stored = False; size = False
    for b, j, m in F.reached():
        if j is not None and j.op == 'call':
            nm = short(cname(j))
            if (cname(j) in ACQ or nm in ('malloc', '_mm_malloc', 'mm_malloc', 'operator new[]', 'calloc')) and j.args:
                for a in j.args[:2 if nm == 'calloc' else 1]:
                    s = F.ev(a, m)
                    if s == BIG: size = True; sized.add(id(j)); sized |= {o for o in j.outs or ()}
                    elif v != BIG and (isnum(s) and s < 0 or negative(F, a, m)): rep('unchecked size', j, 'memory of %s size is allocated when %s, read at %s, is %s' % ('a negative' if v == NEGV else 'an overflowing', name, locstr(i.loc), word), nm)
                    elif v == IMAX and ovf(F, a, m): rep('unchecked size', j, 'the size of the memory overflows when %s, read at %s, is the largest number' % (name, locstr(i.loc)), nm)
        if v == IMAX: continue
        for e in accesses(j, b):
            x = F.ev(e.a[1], m)
            if isnum(x) and x < 0 and v == NEGV and x == -1 and not const0(e.a[1]): rep('unchecked index', j, '%s is accessed with index %s when %s, read at %s, is negative' % (arr(e), x, name, locstr(i.loc)), 'idx')
            if x == BIG and v == BIG and not sizedby(F, e, sized) and not array:
                stored = True
                if e.ty is not None: rep('unchecked index', j, '%s is accessed with an index from %s, read at %s, that is too large' % (arr(e), name, locstr(i.loc)), 'idx')
        if j is not None and j.op == 'set' and j.lv.k == 'at' and not j.outs and F.ev(j.e, m) == v and not constval(j.e) and not array: stored = True
    return stored, size, word
def const0(e):
    return loops.const(lf(e)) is not None
constval = const0
def negative(F, e, mem):
    """a factor of the product is negative"""
    e = strip_casts(e)
    if e.k == 'ssa':
        d = definition(e.a[0])
        if d is not None: return negative(F, d, mem)
    if e.k == 'bin' and e.a[0] == '*': return any(negative(F, x, mem) for x in e.a[1:])
    v = F.ev(e, mem)
    return isnum(v) and v < 0
def sizedby(F, e, sized):
    b = strip_casts(resolve(e.a[0]))
    if b.k == 'ssa' and b.a[0] in sized: return True
    k = F.akey(e.a[0])[0]
    if k is None: return False
    if k[0] == 's' and k[1] in sized: return True
    # a field that was given memory of that size
    for bb in F.cfg.order:
        for j in bb.ins:
            if j.op == 'set' and j.lv.k == 'fld' and F.mkey(j.lv) == k:
                x = strip_casts(resolve(j.e))
                if x.k == 'ssa' and x.a[0] in sized: return True
    return False
def poff(F, e):
    """the array a pointer points into, and the position as a linear form"""
    off = {}
    e = strip_casts(e)
    for _ in range(20):
        k, o = F.akey(e)
        if k is not None and not (k[0] == 's' and definition(k[1]) is not None): return k, loops.plus(off, {1: o} if o else {})
        if e.k == 'bin' and e.a[0] in ('+', '-'): off = loops.plus(off, lf(e.a[2]), 1 if e.a[0] == '+' else -1); e = strip_casts(e.a[1]); continue
        if e.k == 'ssa' and definition(e.a[0]) is not None: e = strip_casts(definition(e.a[0])); continue
        if e.k == 'addr' and e.a[0].k == 'at': off = loops.plus(off, lf(e.a[0].a[1])); e = strip_casts(e.a[0].a[0]); continue
        break
    return None, None
def eq(a, b): return fk(loops.plus(a, b, -1)) == fk({})
def coverage(F, cfg, ak, off, cnt):
    """loops over all elements of the array -> the edges that leave them after the last element. Ranges that cannot be
    determined are taken to cover the array."""
    if getattr(F, '_cl', None) is None: F._cl = counted(cfg)
    first = {1: off} if off else {}
    pr = {}
    for h, body in loops.natural(cfg).items():
        lat = [q for q in body if h in q.succs]
        ptr = [p.sv for p in h.phis if any(q not in body and poff(F, E('ssa', (o,), p.sv.var.ty if p.sv.var is not None else None))[0] == ak for q, o in p.ops.items())]
        acc = []
        for b in body:
            if not all(dominates(cfg.idom, b, q) for q in lat) and not early(cfg, b, body, h): continue
            for i in list(b.ins) + [None]:
                for e in accesses(i, b):
                    x = strip_casts(resolve(e.a[0]))
                    if F.akey(e.a[0])[0] == ak or any(uses(E('ssa', (x.a[0],)) if x.k == 'ssa' else e.a[0], s) for s in ptr): acc.append(e)
        if not acc: continue
        cs = [C for C in F._cl if C.head is h]
        known = False; full = False
        for C in cs:
            if C.sv in ptr:
                b1, o1 = next((poff(F, E('ssa', (o,))) for q, o in next(p for p in h.phis if p.sv is C.sv).ops.items() if q not in body), (None, None))
                b2, o2 = poff(F, C.hie)
                if b1 != ak or b2 != ak: continue
                known = True
                full |= C.step == 1 and eq(o1, first) and eq(loops.plus(o2, o1, -1), cnt)
                continue
            for e in acc:
                if F.akey(e.a[0])[0] != ak: continue
                d = loops.plus(lf(e.a[1], stop=(C.sv,)), {('ssa', C.sv.uid): 1}, -1)
                c = loops.const(d)
                if c is None: continue
                known = True
                lo, hi = (C.lo, C.hi) if C.step > 0 else (C.hi, loops.plus(C.lo, {1: 1}))
                full |= C.step in (1, -1) and eq(loops.plus(lo, {1: c}), first) and eq(loops.plus(hi, lo, -1), cnt)
        if known and not full: continue
        if not known and not cs and not ptr: continue
        for b in body:
            t = b.term
            if not t or t[0] != 'br': continue
            if any(isinstance(x, E) and touchesarr(F, t[1], ak, ptr) for x in (t[1],)): continue
            vs = [C.sv for C in cs] + ptr
            if any(uses(strip_casts(canon(t[1], v)), v) for v in vs):
                for s in b.succs:
                    if s not in body: pr.setdefault(h, set()).add((b, s))
    return pr
def early(cfg, b, body, h):
    """every round that is not the last passes the block, unless the loop is left before"""
    seen = set(); st = [h]
    while st:
        x = st.pop()
        if x is b or x in seen or x not in body: continue
        seen.add(x)
        if h in x.succs: return False
        st += x.succs
    return True
def touchesarr(F, e, ak, ptr):
    e = strip_casts(resolve(e))
    if e.k == 'ld' and e.a[0].k == 'at': return True
    return any(touchesarr(F, x, ak, ptr) for x in e.a if isinstance(x, E))
def canon(e, sv): return loops.canon(e, (sv,))
def uses(e, sv):
    e = strip_casts(e)
    if e.k == 'ssa' and e.a[0] is sv: return True
    return e.k != 'ld' and any(uses(x, sv) for x in e.a if isinstance(x, E))
def size_of(e):
    x = strip_casts(resolve(e))
    if x.k == 'decay' and x.a[0].k == 'var':
        t = x.a[0].a[0].ty
        return getattr(t, 'n', None)
    return None
def widths(R, f, i, rep):
    k = 2
    for c, a in zip(convs(fmt(i)), i.args[k:]):
        if c[3][0] in 's[c':
            R.count('strings_read')
            n = size_of(a); w = int(c[1]) if c[1] else None
            if c[3] == 'c': continue
            if w is None: rep('unbounded string', i, 'a word of any length is read into %s' % arr(a), 'str')
            elif n is not None and w + 1 > n: rep('unbounded string', i, 'a word of up to %d characters is read into %s of %d' % (w, arr(a), n), 'str')
def line(R, f, i, rep):
    n = size_of(i.args[0]); w = loops.const(lf(i.args[1]))
    R.count('strings_read')
    if n is not None and w is not None and w > n: rep('unbounded string', i, 'a line of up to %d characters is read into %s of %d' % (w, arr(i.args[0]), n), 'str')
