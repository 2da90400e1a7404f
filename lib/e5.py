"""Stop protocol: a typestate analysis of the control-flow graph.

In a function that receives a callback, a *site* is a call of the callback, or a
call of another function that is handed the callback.  Starting behind each site,
with the site's boolean result fixed to true, every branch the outcome of which
does not follow from what is known is taken both ways; booleans that follow from
the result (through phi, and/or/xor, select, comparisons) are tracked.  The
property is violated when a site is reached again, or when a boolean function can
return anything but true.  All paths are covered; nothing is unrolled."""
import re
from common import *

def args_of(I): return I[5]
class Fn:
    def __init__(s, j, mod):
        s.j = j; s.name = j['name']; s.B = j['blocks']; s.mod = mod
        s.ret = j.get('ret')
    def live(s, b):
        """SSA values that may still be read at the start of block b (phis of b included)"""
        if not hasattr(s, '_live'):
            n = len(s.B); use = [set() for _ in range(n)]; dfn = [set() for _ in range(n)]; ph = [set() for _ in range(n)]; succ = [[] for _ in range(n)]
            def ops(x, out):
                if isinstance(x, str):
                    if x[:1] == '%': out.add(x)
                elif isinstance(x, (list, tuple)):
                    for y in x: ops(y, out)
            pin = [dict() for _ in range(n)]
            for b_, B in enumerate(s.B):
                for I in B:
                    if I[0] == 'phi':
                        ph[b_].add(I[1])
                        for x, q in I[4]:
                            if isinstance(x, str) and x[:1] == '%': pin[b_].setdefault(q, set()).add(x)
                        continue
                    u = set(); ops(I[4:], u)
                    use[b_] |= {x for x in u if x not in dfn[b_]}
                    if I[1]: dfn[b_].add(I[1])
                t = B[-1]
                succ[b_] = [t[4]] if t[0] == 'br' and len(t) == 5 else [t[5], t[6]] if t[0] == 'br' else [t[5]] + [x[1] for x in t[6]] if t[0] == 'switch' else [t[6]] if t[0] == 'invoke' else []
            inn = [set(u) for u in use]; ch = True
            while ch:
                ch = False
                for b_ in reversed(range(n)):
                    o = set()
                    for q in succ[b_]: o |= (inn[q] - ph[q]) | pin[q].get(b_, set())
                    x = use[b_] | (o - dfn[b_])
                    if not x <= inn[b_]: inn[b_] |= x; ch = True
            s._live = inn
        return s._live[b]
    def loc(s, i): return s.mod['locs'][i] if i else ''
def sites(fn, cbs, bad):
    """positions (block, index) of callback sites; `bad` collects uses that lose track of the callback"""
    out = []
    alias = set(cbs); grew = True
    while grew:      # copies of the callback
        grew = False
        for b in fn.B:
            for I in b:
                if I[0] == 'phi' and I[1] not in alias and any(x in alias for x, _ in I[4]): alias.add(I[1]); grew = True
                if I[0] in ('select', 'freeze', 'bitcast') and I[1] not in alias and any(x in alias for x in I[4:] if isinstance(x, str)): alias.add(I[1]); grew = True
    for bi, b in enumerate(fn.B):
        for k, I in enumerate(b):
            if I[0] in ('call', 'invoke'):
                if I[4] in alias or any(a in alias for a in I[5]): out.append((bi, k))
            elif I[0] == 'store' and I[5] in alias: bad.append('callback stored to memory at %s' % fn.loc(I[2]))
    return out
def explore(fn, start, sset):
    """-> None or (kind, location) of the first violation reachable after `start` returned true"""
    bi, k = start
    I = fn.B[bi][k]
    env = {I[1]: 1} if I[1] and I[3] == 'i1' else {}
    work = []; seen = set()
    def const(x):
        m = re.match(r'^[^%@]*?(-?\d+)$', x) if isinstance(x, str) else None
        return int(m.group(1)) if m and x[0] != '%' and x[0] != '@' else None
    def get(x, e):
        if x in e: return e[x]
        return const(x)
    def go(b, i, e):
        """run from instruction i of block b"""
        e = dict(e)
        for j in range(i, len(fn.B[b])):
            I = fn.B[b][j]; op, r = I[0], I[1]
            if op == 'phi': continue
            if (b, j) in sset: return ('again', fn.loc(I[2]))
            if r: e.pop(r, None)
            if op in ('and', 'or', 'xor', 'add', 'sub', 'mul') and r:
                x, y = get(I[4], e), get(I[5], e)
                if op == 'and' and (x == 0 or y == 0): e[r] = 0
                elif op == 'or' and I[3] == 'i1' and ((x is not None and x & 1) or (y is not None and y & 1)): e[r] = 1
                elif x is not None and y is not None: e[r] = {'and': x & y, 'or': x | y, 'xor': x ^ y, 'add': x + y, 'sub': x - y, 'mul': x * y}[op] & (1 if I[3] == 'i1' else -1)
            elif op == 'icmp':
                x, y = get(I[5], e), get(I[6], e)
                if x is not None and y is not None and I[4] in ('eq', 'ne', 'slt', 'sle', 'sgt', 'sge'):
                    e[r] = int({'eq': x == y, 'ne': x != y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[I[4]])
            elif op in ('zext', 'freeze', 'trunc', 'bitcast', 'sext'):
                x = get(I[4], e)
                if x is not None: e[r] = (-x if I[5] == 'i1' else x) if op == 'sext' else x & 1 if I[3] == 'i1' else x
            elif op == 'select':
                c = get(I[4], e); x, y = get(I[5], e), get(I[6], e)
                if c is not None: 
                    v = x if c else y
                    if v is not None: e[r] = v
                elif x is not None and x == y: e[r] = x
            elif op == 'ret':
                if len(I) > 4 and fn.retbool:
                    v = get(I[4], e)
                    if v is None or not v & 1: return ('lost', fn.loc(I[2]))
                return None
            elif op == 'br':
                if len(I) == 5: edge(b, I[4], e)
                else:
                    c = get(I[4], e)
                    if c is None or c: edge(b, I[5], dict(e, **({I[4]: 1} if I[4][0] == '%' else {})))
                    if c is None or not c: edge(b, I[6], dict(e, **({I[4]: 0} if I[4][0] == '%' else {})))
            elif op == 'switch':
                c = get(I[4], e); hit = False
                for cv, s in I[6]:
                    k = const(cv)
                    if c is None or c == k: edge(b, s, e); hit = c is not None
                if not hit: edge(b, I[5], e)
            elif op == 'invoke': edge(b, I[6], e)
        return None
    def edge(a, b, e):
        new = dict(e)
        for p in fn.B[b]:
            if p[0] != 'phi': break
            new.pop(p[1], None)
            for x, q in p[4]:
                if q == a:
                    v = get(x, e)
                    if v is not None: new[p[1]] = v
                    break
        L = fn.live(b)
        new = {k: v for k, v in new.items() if k in L}
        key = (b, frozenset(new.items()))
        if key in seen: return
        seen.add(key); work.append((b, new))
    v = go(bi, k + 1, env) if I[0] == 'call' else edge(bi, I[6], env)
    while v is None and work:
        if len(seen) > 20000: return ('again', 'unexplored: too many states')
        b, e = work.pop()
        v = go(b, 0, e)
    explore.states = len(seen)
    return v
