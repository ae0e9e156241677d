"""Counted loops: for a loop whose header phi moves by a constant and whose exit test compares it
with an invariant bound, the half-open range [lo, hi) of values and the step; symbolic linear forms."""
from core import *

def lf(e, at=None, depth=30, stop=()):
    """Linear form {leaf key: coefficient, 1: constant} of an integer expression. Leaves are expression keys."""
    if depth <= 0: return {('?', id(e)): 1}
    k = e.k
    if k == 'cast':
        return lf(e.a[1], at, depth, stop)
    if k == 'int': return {1: e.a[0]} if e.a[0] else {}
    if k == 'sizeof' and isinstance(e.a[0], int): return {1: e.a[0]}
    if k == 'tparm': return lf(e.a[1], at, depth, stop) if isinstance(e.a[1], E) else {e.key: 1}
    if k == 'ssa':
        s = e.a[0]
        if s in stop: return {e.key: 1}
        d = definition(s)
        if d is not None: return lf(d, at, depth - 1, stop)
        return {e.key: 1}
    if k == 'un' and e.a[0] == '-': return mul(lf(e.a[1], at, depth, stop), -1)
    if k == 'bin' and e.a[0] in ('+', '-') and not isptr(e.a[1]) and not isptr(e.a[2]):
        return plus(lf(e.a[1], at, depth, stop), lf(e.a[2], at, depth, stop), 1 if e.a[0] == '+' else -1)
    if k == 'bin' and e.a[0] == '*':
        a, b = lf(e.a[1], at, depth, stop), lf(e.a[2], at, depth, stop)
        if set(a) <= {1}: return mul(b, a.get(1, 0))
        if set(b) <= {1}: return mul(a, b.get(1, 0))
        t = tuple(sorted([fk(a), fk(b)], key=repr))
        return {('*',) + t: 1}
    if k == 'ld' or k == 'bin' or k == 'cond' or k == 'un':
        return {canon(e, stop).key: 1}
    return {e.key: 1}
def canon(e, stop=()):
    """the expression with SSA copies followed (but not through the names in stop)"""
    if e.k == 'ssa':
        if e.a[0] in stop: return e
        d = definition(e.a[0])
        return canon(d, stop) if d is not None else e
    if e.k == 'cast' and e.ty is not None and e.ty.isint: return canon(e.a[1], stop)
    ch = False; na = []
    for x in e.a:
        if isinstance(x, E):
            y = canon(x, stop); ch |= y is not x; na.append(y)
        else: na.append(x)
    return E(e.k, tuple(na), e.ty, e.loc) if ch else e
def isptr(e): return e.ty is not None and e.ty.isptr or e.k in ('addr', 'decay', 'null')
def plus(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s*v
        if r[k] == 0: del r[k]
    return r
def mul(a, c): return {k: v*c for k, v in a.items()} if c else {}
def fk(a): return tuple(sorted(((repr(k), v) for k, v in a.items())))
def const(a): return a.get(1, 0) if set(a) <= {1} else None

def natural(cfg):
    """header -> set of blocks"""
    L = {}
    for b in cfg.order:
        for s in b.succs:
            if dominates(cfg.idom, s, b):
                body = L.setdefault(s, {s}); st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st += [p for p in x.preds if p in cfg.idom]
    return L

class Counted:
    """phi sv runs through lo, lo+step, .. while < hi (step > 0) or > hi-1 .. (step < 0: from lo down to hi inclusive)"""
    __slots__ = ('head', 'body', 'sv', 'lo', 'hi', 'step', 'loe', 'hie', 'l', 'r', 'op', 'exact', 'inc')
def counted(cfg):
    """list of Counted, for every loop with a recognisable counter; exact: no other way out of the loop"""
    out = []
    for h, body in natural(cfg).items():
        exits = [(b, s) for b in body for s in b.succs if s not in body and not dead(s)]
        for p in h.phis:
            ini = [o for q, o in p.ops.items() if q not in body]
            nxt = [o for q, o in p.ops.items() if q in body]
            if len({o for o in ini}) != 1 or not nxt: continue
            steps = set()
            for o in nxt:
                f = plus(lf(E('ssa', (o,)), stop=(p.sv,)), {('ssa', p.sv.uid): 1}, -1)
                steps.add(const(f))
            if len(steps) != 1 or None in steps or 0 in steps: continue
            st = steps.pop()
            for b, s in exits:
                t = b.term
                if not t or t[0] != 'br': continue
                c = strip_casts(t[1]); c = strip_casts(canon(c, (p.sv,)))
                if c.k != 'bin' or c.a[0] not in ('<', '<=', '>', '>=', '!=', '=='): continue
                op = c.a[0]
                stay = t[2] if t[3] is s else t[3]
                if t[2] is s: op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '!=': '==', '==': '!='}[op]
                l, r = lf(c.a[1], stop=(p.sv,)), lf(c.a[2], stop=(p.sv,))
                d = plus(l, r, -1); k = ('ssa', p.sv.uid)
                if d.get(k) not in (1, -1): continue
                if d[k] == -1: d = mul(d, -1); op = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '!=': '!=', '==': '=='}[op]
                del d[k]
                bound = mul(d, -1)               # stay while sv op bound
                # test on the value after the increment (do-while)
                C = Counted(); C.head = h; C.body = body; C.sv = p.sv; C.step = st; C.inc = nxt
                C.lo = lf(E('ssa', (ini[0],))); C.loe = E('ssa', (ini[0],))
                C.hie = c.a[2]; C.l, C.r, C.op = c.a[1], c.a[2], op
                if st > 0 and op in ('<', '<=', '!='): C.hi = plus(bound, {1: 1}) if op == '<=' else bound
                elif st < 0 and op in ('>', '>=', '!='): C.hi = plus(bound, {1: 1}) if op in ('>', '!=') else bound
                else: continue
                C.exact = len(exits) == 1
                if b is not h and not all(dominates(cfg.idom, b, q) for q in body if h in q.succs): continue
                if b is not h: C.exact = False if any(i.op == 'set' and not i.outs for i in h.ins) else C.exact
                out.append(C)
    return out
def dead(b):
    """the block only ends the program"""
    n = 0
    while b is not None and n < 20:
        if b.term and b.term[0] == 'unreach': return True
        if len(b.succs) != 1: return False
        b = b.succs[0]; n += 1
    return False
