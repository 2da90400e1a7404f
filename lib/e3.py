"""Gated-SSA value numbering of loop-free (after normalisation) functions, and
comparison of implementation functions with specification functions."""
import os, re, struct, time
from fractions import Fraction
import terms as T
from terms import Unsupported
from common import *

SIZES = {'double': 8, 'float': 4, 'i64': 8, 'i32': 4, 'i16': 2, 'i8': 1, 'i1': 1, 'ptr': 8}

class Fn:
    def __init__(self, j, mod):
        self.j = j; self.mod = mod; self.name = j['name']; self.dem = j['dem']; self.blocks = j['blocks']

SIMPLE_CALLS = {'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'asin': 'asin', 'acos': 'acos', 'atan': 'atan', 'exp': 'exp', 'log': 'log'}

class Eval:
    def __init__(self, fn, events=None, names=None, ints=(), loops='unroll', lets=None):
        self.loops = loops; self.lets = lets or {}
        self.fn = fn; self.mod = fn.mod; self.names = names or {}
        self.vals = {}
        self.events = events    # None -> calls unsupported
        self.evlog = []
        self.lines = set()
        self.ints = ints

    def loc(self, i):
        return self.mod['locs'][i] if i else ''

    # ---- control flow: acyclic regions in topological order; loops either
    # executed abstractly iteration by iteration while constants decide the exit
    # (loops='unroll'), or summarised by one arbitrary iteration (loops='havoc').
    UNROLL = 200
    lin = ()
    def run(self):
        fn = self.fn
        B = fn.blocks
        n = len(B)
        self.succ = {b: self.succs(B[b][-1]) for b in range(n)}
        self.phis = {b: [i for i in B[b] if i[0] == 'phi'] for b in range(n)}
        for k, a in enumerate(fn.j['args']):
            if a[1] == 'ptr': self.vals[a[0]] = T.mkptr('arg%d' % k, 0)
            else: self.vals[a[0]] = T.latom(T.A.get('arg', k))
        self.inrec = {b: [] for b in range(n)}     # incoming records (cond, mem, {phi: value})
        self.ret = None; self.finalmem = None
        self.rets = []
        self.epoch = 0
        self.inrec_back = {}
        self.find_backedges()
        self.init_hook()
        reach = set(); st = [0]
        while st:
            b = st.pop()
            if b in reach: continue
            reach.add(b); st.extend(self.succ[b])
        self.inrec[0].append((T.TRUE(), {}, {}))
        self.region(sorted(reach), 0, None)
        self.finalmem = self.merge([(c, m) for c, m, _ in self.rets])
        v = None
        for c, m, r in self.rets:
            if r is None: continue
            v = r if v is None else T.ite(c, r, v)
        self.ret = v
        return self
    def init_hook(self): pass

    def region(self, nodes, entry, head):
        """process nodes (a set closed under being inside the region), edges to `head` are back edges"""
        for comp in self.sccs(nodes, head):
            if len(comp) == 1 and comp[0] not in [s for s in self.succ[comp[0]] if s != head]:
                self.block(comp[0])
            else: self.loop(comp)
    def sccs(self, nodes, head):
        """Tarjan over nodes ignoring edges into head; topological order"""
        S = set(nodes); idx = {}; low = {}; on = set(); st = []; out = []; cnt = [0]
        def go(v):
            work = [(v, iter([s for s in self.succ[v] if s in S and s != head]))]
            idx[v] = low[v] = cnt[0]; cnt[0] += 1; st.append(v); on.add(v)
            while work:
                u, it = work[-1]
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = cnt[0]; cnt[0] += 1; st.append(w); on.add(w)
                        work.append((w, iter([s for s in self.succ[w] if s in S and s != head]))); break
                    elif w in on: low[u] = min(low[u], idx[w])
                else:
                    work.pop()
                    if work: low[work[-1][0]] = min(low[work[-1][0]], low[u])
                    if low[u] == idx[u]:
                        c = []
                        while True:
                            w = st.pop(); on.discard(w); c.append(w)
                            if w == u: break
                        out.append(c)
        for v in nodes:
            if v not in idx: go(v)
        out.reverse()
        return out
    def loop(self, comp):
        S = set(comp)
        heads = [b for b in comp if any(b in self.succ[p] for p in self.succ if p not in S)] 
        if len(heads) != 1: raise Unsupported('irreducible loop')
        h = heads[0]
        if not any(r[0] is not T.FALSE() for r in self.inrec[h]):
            # dead loop
            for b in comp:
                self.inrec[b] = []
                self.dead(b)
            return
        if self.loops == 'havoc' or (self.loops == 'auto' and self.nounroll(comp, h)): return self.havoc_loop(comp, h)
        for k in range(self.UNROLL):
            for b in comp:
                if b != h: self.inrec[b] = []
            self.region(comp, h, h)
            back = [r for r in self.inrec_back.pop(h, []) if r[0] is not T.FALSE()]
            if k >= 1: back = [r for r in back if T.compare(r[0], T.FALSE(), assume=self.lin) is not None]
            if not back: return
            self.inrec[h] = back
        t = self.fn.blocks[h]
        raise Unsupported('loop not decided by constants (at %s)' % self.loc(next((i[2] for b in comp for i in self.fn.blocks[b] if i[2]), 0)))
    def nounroll(self, comp, h): return True
    def dead(self, b):
        for ins in self.fn.blocks[b]:
            if ins[1]: self.vals[ins[1]] = None
    def edge(self, a, b, c, mem):
        """add an incoming record to b"""
        pv = {}
        if c is not T.FALSE():
            for p in self.phis[b]:
                for x, q in p[4]:
                    if q == a:
                        pv[p[1]] = x; break
            for k in pv:
                try: pv[k] = self.val(pv[k])
                except Unsupported: pv[k] = T.latom(T.A.get('poison', 0))
        r = (c, mem, pv)
        if (a, b) in self.backedges: self.inrec_back.setdefault(b, []).append(r)
        else: self.inrec[b].append(r)
    def enter(self, b):
        """merge incoming records -> (cond, mem); sets phi values"""
        recs = [r for r in self.inrec[b] if r[0] is not T.FALSE()]
        self.inrec[b] = []
        if not recs:
            self.dead(b); return T.FALSE(), {}
        c = T.FALSE()
        for r in recs: c = T.bor(c, r[0])
        mem = self.merge([(r[0], r[1]) for r in recs])
        new = {}
        for p in self.phis[b]:
            v = None
            for rc, _, pv in recs:
                x = pv.get(p[1])
                if x is None: continue
                v = x if v is None else T.ite(rc, x, v)
            new[p[1]] = v
        self.vals.update(new)
        return c, mem
    def block(self, b):
        B = self.fn.blocks[b]
        c, mem = self.enter(b)
        self.curblock = b
        if c is T.FALSE():
            return
        mem = dict(mem)
        self.cur = c
        for ins in B[:-1]:
            if ins[0] == 'phi': continue
            try: self.step(ins, mem)
            except Unsupported as e:
                if ' at ' in str(e): raise
                raise Unsupported('%s [%s at %s]' % (e, ins[0], self.loc(ins[2])))
        t = B[-1]
        op = t[0]
        if op == 'br':
            if len(t) == 5: self.edge(b, t[4], self.cur, mem)
            else:
                v = self.val(t[4])
                if t[5] == t[6]: self.edge(b, t[5], self.cur, mem); return
                v = self.boolean(v)
                self.edge(b, t[5], T.band(self.cur, v), mem)
                self.edge(b, t[6], T.band(self.cur, T.bnot(v)), dict(mem))
        elif op == 'switch':
            v = self.val(t[4]); rest = self.cur; tgt = {}
            for cv, s in t[6]:
                e = T.cmp('eq', v, T.lconst(int(cv[1:])))
                tgt[s] = T.bor(tgt.get(s, T.FALSE()), T.band(rest, e)); rest = T.band(rest, T.bnot(e))
            tgt[t[5]] = T.bor(tgt.get(t[5], T.FALSE()), rest)
            for s, cc in tgt.items(): self.edge(b, s, cc, dict(mem))
        elif op == 'ret':
            self.rets.append((self.cur, mem, self.val(t[4]) if len(t) > 4 else None))
        elif op == 'invoke':
            self.step(t, mem)
            self.edge(b, t[6], self.cur, mem)
        elif op in ('unreachable', 'resume'): pass
        else: raise Unsupported('terminator ' + op)
    def boolean(self, v):
        """branch condition as a 0/1 diagram; opaque leaves become sign tests"""
        def bad(x):
            return not isinstance(x, T.Ptr) and not x.is_const()
        def has(x, seen):
            if type(x) is T.Node:
                if x in seen: return False
                seen.add(x)
                return has(x.n, seen) or has(x.z, seen) or has(x.p, seen)
            return bad(x)
        if has(v, set()): return T.cmp('ne', v, T.FALSE())
        return v
    def find_backedges(self):
        """edges closing a loop, found by the same recursive SCC decomposition"""
        self.backedges = set()
        def rec(nodes, head):
            for comp in self.sccs(nodes, head):
                if len(comp) == 1 and comp[0] not in [s for s in self.succ[comp[0]] if s != head]: continue
                S = set(comp)
                heads = [b for b in comp if any(b in self.succ[p] for p in self.succ if p not in S)]
                if len(heads) != 1: raise Unsupported('irreducible loop')
                h = heads[0]
                for p in comp:
                    if h in self.succ[p]: self.backedges.add((p, h))
                rec(comp, h)
        reach = set(); st = [0]
        while st:
            b = st.pop()
            if b in reach: continue
            reach.add(b); st.extend(self.succ[b])
        rec(sorted(reach), None)

    def succs(self, t):
        op = t[0]
        if op == 'br': return [t[4]] if len(t) == 5 else [t[5], t[6]]
        if op == 'switch': return [t[5]] + [x[1] for x in t[6]]
        if op == 'invoke': return [t[6]]
        return []

    def merge(self, ps):
        if not ps: return {}
        if len(ps) == 1: return dict(ps[0][1])
        keys = {}
        ps = [(c, dict(m)) for c, m in ps]
        self.harmonize([m for _, m in ps])
        for _, m in ps:
            for k in m: keys[k] = 1
        out = {}
        for k in keys:
            v = None; bad = False
            for c, m in ps:
                x = m.get(k)
                if x is None:
                    x = self.initial(k)
                    if x is None: bad = True; break
                v = x if v is None else (v if x is v else T.ite(c, x, v))
            if not bad: out[k] = v
        return out

    def initial(self, k):
        base, off, sz = k
        if k in self.lets: return self.lets[k]
        if base.startswith('arg'):
            a = T.A.get('mem', (base, off, sz), self.names.get((base, off), '%s[%g]' % (base, off / 8)))
            if sz == 1: T.A.nonneg.add(a)      # bytes are flags
            return T.latom(a)
        if base.startswith('alloca') or base.startswith('heap'):
            return T.latom(T.A.get('undef', (self.fn.name, k)))
        if base.startswith('@'):
            g = self.gflat().get(base[1:])
            if g is not None:
                for o, z, v in g:
                    if v == 'z' and o <= off and off + sz <= o + z: return T.lconst(0)
                    if o == off and z == sz: return self.val(v)
            return T.latom(T.A.get('glob', (base, off, sz)))
        return None

    def gflat(self):
        if 'gflat' not in self.mod:
            self.mod['gflat'] = {g['name']: g['flat'] for g in self.mod.get('globals', []) if 'flat' in g}
        return self.mod['gflat']
    def val(self, s):
        c = s[0]
        if c == '%':
            v = self.vals.get(s)
            if v is None: raise Unsupported('use of dead or unknown value ' + s)
            return v
        if c == 'd': return T.from_double(struct.unpack('>d', bytes.fromhex(s[1:].zfill(16)))[0])
        if c == 'i': return T.lconst(int(s[1:]))
        if c == 'n': return T.mkptr('null', 0)
        if c == '@':
            p = s.rfind('+#')
            return T.mkptr(s[:p], int(s[p + 2:])) if p > 0 else T.mkptr(s, 0)
        if c == 'u': return T.latom(T.A.get('poison', 0))
        if c == 'z': return T.lconst(0)
        raise Unsupported('operand ' + s)

    def load(self, ptr, sz, mem, ty):
        def one(p):
            if not isinstance(p, T.Ptr): 
                if p.num.atoms() and any(T.A.tab[a][0] in ('poison', 'undef', 'DIV0') for a in p.num.atoms()): return p
                raise Unsupported('load through non-constant pointer')
            k = (p.base, p.off, sz)
            if k in mem: return mem[k]
            # overlap?
            for (b, o, z) in list(mem):
                if b == p.base and o < p.off + sz and p.off < o + z:
                    if not (o <= p.off and p.off + sz <= o + z and ((p.off - o) % sz == 0 and self.split(mem, (b, o, z), sz) or self.split(mem, (b, o, z)))): raise Unsupported('partial overlap load %s %d %d in %d %d %s' % (p.base, p.off, sz, o, z, str(mem[(b,o,z)])[:80]))
            if k in mem: return mem[k]
            if sz == 8 and all((p.base, p.off + i, 4) in mem and mem[(p.base, p.off + i, 4)] is T.lconst(0) for i in (0, 4)): return T.lconst(0)
            v = self.initial(k)
            if v is None:
                if p.base == 'null': return T.latom(T.A.get('poison', 0))
                raise Unsupported('load from ' + p.base)
            if ty == 'ptr' and not isinstance(v, T.Ptr): v = T.mkptr('arg*%s+%d' % (p.base, p.off), 0)
            return v
        return self.overptr(ptr, one)
    def overptr(self, ptr, f):
        if type(ptr) is not T.Node: return f(ptr)
        n, z, p = self.overptr(ptr.n, f), self.overptr(ptr.z, f), self.overptr(ptr.p, f)
        return T.select3(ptr.v, n, z, p)
    def ptrs(self, ptr, c=None):
        """list of (cond, leaf)"""
        out = []
        leaves = {}
        def rec(x):
            if type(x) is T.Node: rec(x.n); rec(x.z); rec(x.p)
            else: leaves[x] = 1
        rec(ptr)
        for l in leaves:
            m = T.apply(('eqleaf', id(l)), lambda y: T.lconst(1 if y is l else 0), ptr)
            out.append((m, l))
        return out
    def split(self, mem, k, w=1):
        """a cell that holds untouched input memory (a copied structure), zeroes or nothing yet, in pieces of w bytes"""
        v = mem[k]
        if isinstance(v, T.Ptr) or k[2] % w: return False
        def piece(l, i):
            if isinstance(l, T.Ptr): return None
            if l.is_const(): return l if not l.const() else None
            at = sorted(l.num.atoms())
            if len(at) != 1 or T.A.tab[at[0]][0] not in ('mem', 'undef', 'poison') or l is not T.latom(at[0]): return None
            kind, pay = T.A.tab[at[0]][:2]
            if kind == 'poison': return l
            if kind == 'undef':
                if not isinstance(pay[1], tuple): return l
                fnm, (b, o, z) = pay
                return T.latom(T.A.get('undef', (fnm, (b, o + i, w))))
            b, o, z = pay
            return self.initial((b, o + i, w)) if z == k[2] else None
        def ok(x, seen):
            if type(x) is T.Node:
                if x in seen: return True
                seen.add(x)
                return ok(x.n, seen) and ok(x.z, seen) and ok(x.p, seen)
            return piece(x, 0) is not None
        if not ok(v, set()): return False
        del mem[k]
        for i in range(0, k[2], w):
            mem[(k[0], k[1] + i, w)] = T.apply(('piece', i, w, k), lambda l, i=i: piece(l, i), v)
        return True
    def harmonize(self, mems):
        """predecessors that hold the same bytes in cells of different widths: use the narrow cells everywhere"""
        allk = {}
        for m in mems:
            for b, o, z in m: allk.setdefault(b, set()).add((o, z))
        for b, ks in allk.items():
            ks = sorted(ks)
            if all(x[0] + x[1] <= y[0] for x, y in zip(ks, ks[1:])): continue
            for o, z in ks:
                w = [z2 for o2, z2 in ks if (o2, z2) != (o, z) and o <= o2 and o2 + z2 <= o + z and z2 < z]
                if not w: continue
                for m in mems:
                    if (b, o, z) in m: self.split(m, (b, o, z), min(w))
    def store(self, ptr, v, sz, mem):
        for c, p in self.ptrs(ptr):
            if not isinstance(p, T.Ptr): raise Unsupported('store through non-constant pointer')
            k = (p.base, p.off, sz)
            for (b, o, z) in list(mem):
                if b == p.base and (o, z) != (p.off, sz) and o < p.off + sz and p.off < o + z:
                    if c is T.TRUE() and p.off <= o and o + z <= p.off + sz: del mem[(b, o, z)]
                    elif not ((o <= p.off and p.off + sz <= o + z) and (p.off - o) % sz == 0 and self.split(mem, (b, o, z), sz)): raise Unsupported('partial overlap store')
            if c is T.TRUE(): mem[k] = v
            else:
                old = mem.get(k)
                if old is None: old = self.initial(k)
                if old is None: raise Unsupported('conditional store to ' + p.base)
                mem[k] = T.ite(c, v, old)

    def step(self, I, mem):
        op, r, l, ty = I[0], I[1], I[2], I[3]
        if l: self.lines.add(l)
        V = self.vals; val = self.val
        if op == 'fadd' or op == 'add': V[r] = T.add(val(I[4]), val(I[5])); self.wrap(r, ty)
        elif op == 'fsub' or op == 'sub': V[r] = T.sub(val(I[4]), val(I[5])); self.wrap(r, ty)
        elif op == 'fmul' or op == 'mul': V[r] = T.mul(val(I[4]), val(I[5])); self.wrap(r, ty)
        elif op == 'fdiv': V[r] = T.div(val(I[4]), val(I[5]))
        elif op == 'fneg': V[r] = T.neg(val(I[4]))
        elif op == 'fcmp':
            p = I[4]
            if p in ('ord', 'true'): V[r] = T.TRUE()
            elif p in ('uno', 'false'): V[r] = T.FALSE()
            else: V[r] = T.cmp(p[1:], val(I[5]), val(I[6]))
        elif op == 'icmp':
            a, c = val(I[5]), val(I[6]); p = I[4]
            V[r] = self.icmp(p, a, c)
        elif op == 'select':
            if ty.startswith('<'): raise Unsupported('vector select')
            V[r] = T.ite(val(I[4]), val(I[5]), val(I[6]))
        elif op == 'getelementptr':
            p = val(I[4]); o = I[5]
            if I[6] == '?': raise Unsupported('gep')
            v = T.add(p, T.lconst(o)) if o else p
            for x, s in I[6]:
                v = T.add(v, T.mul(val(x), T.lconst(s)))
            V[r] = v
        elif op == 'load':
            if ty.startswith('<') or ty.startswith('{') or ty.startswith('['): raise Unsupported('aggregate load ' + ty)
            V[r] = self.load(val(I[4]), I[5], mem, ty)
            if ty[0] == 'i': self.markint(V[r])
        elif op == 'store':
            if I[7].startswith('<') or I[7].startswith('{') or I[7].startswith('['): raise Unsupported('aggregate store')
            self.store(val(I[4]), val(I[5]), I[6], mem)
        elif op == 'alloca':
            V[r] = T.mkptr('alloca' + r, 0)
        elif op in ('call', 'invoke'):
            self.call(I, mem)
        elif op in ('zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            a = val(I[4])
            if op == 'sext' and I[5] == 'i1': a = T.neg(a)
            if op == 'trunc' and ty == 'i1': a = T.apply('tr1', self._lowbit, a)
            elif op == 'trunc':
                w = int(ty[1:])
                a = T.apply(('trunc', w), lambda x: self._trunc(x, w), a)
            if op in ('fptosi', 'fptoui'): a = T.fn1('trunc_int', a)
            if op == 'zext' and I[5] != 'i1':
                w = int(I[5][1:])
                a = T.apply(('zext', w), lambda x: T.lconst(int(x.const()) % (1 << w)) if not isinstance(x, T.Ptr) and x.is_const() else x, a)
            if op in ('bitcast',) and ty not in ('ptr',) and I[5] != ty and {ty, I[5]} != {'i64', 'double'}: raise Unsupported('bitcast')
            V[r] = a
        elif op in ('and', 'or', 'xor'):
            a, c = val(I[4]), val(I[5])
            if ty == 'i1':
                V[r] = T.band(a, c) if op == 'and' else T.bor(a, c) if op == 'or' else T.ite(a, T.bnot(c), c)
            else:
                f = {'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y}[op]
                V[r] = T.apply(op + 'i', lambda x, y: self._iconst(f, x, y, op), a, c)
        elif op in ('shl', 'lshr', 'ashr'):
            a, c = val(I[4]), val(I[5])
            def g(x, y):
                if y.is_const():
                    k = int(y.const())
                    if op == 'shl': return T.lmul(x, T.lconst(1 << k))
                    if x.is_const(): return T.lconst(int(x.const()) >> k)
                return T.latom(T.A.get('fn', (op, x, y)))
            V[r] = T.apply(op, g, a, c)
        elif op in ('sdiv', 'udiv', 'srem', 'urem'):
            a, c = val(I[4]), val(I[5])
            def g(x, y):
                if x.is_const() and y.is_const():
                    p, q = int(x.const()), int(y.const())
                    d = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
                    return T.lconst(d if 'div' in op else p - d * q)
                if op[1:] == 'div' and y.is_const() and not x.den and all((c / y.const()).denominator == 1 for c in x.num.t.values()): return T.lmul(x, T.lconst(Fraction(1) / y.const()))
                return T.latom(T.A.get('fn', (op, x, y)))
            V[r] = T.apply(op, g, a, c)
        elif op == 'extractvalue':
            V[r] = self.agg[I[4]][tuple(I[5])] if hasattr(self, 'agg') and I[4] in self.agg else self._uns('extractvalue')
        elif op == 'insertvalue':
            if not hasattr(self, 'agg'): self.agg = {}
            d = dict(self.agg.get(I[4], {})); d[tuple(I[6])] = val(I[5]); self.agg[r] = d
            V[r] = T.latom(T.A.get('agg', r))
        elif op == 'landingpad': pass
        else: raise Unsupported(op)
    def markint(self, x):
        if type(x) is T.Node or isinstance(x, T.Ptr) or x.den: return
        for m in x.num.t:
            if len(m) == 1 and m[0][1] == 1 and T.A.tab[m[0][0]][0] in ('mem', 'ev'): T.A.ints.add(m[0][0])
    def _uns(self, s): raise Unsupported(s)
    def wrap(self, r, ty):
        if ty.startswith('<'): raise Unsupported('vector arithmetic')
    def _lowbit(self, x):
        if x.is_const(): return T.lconst(int(x.const()) & 1)
        return x
    def _trunc(self, x, w):
        if isinstance(x, T.Ptr): raise Unsupported('trunc ptr')
        if x.is_const():
            v = int(x.const()) % (1 << w)
            return T.lconst(v - (1 << w) if v >= 1 << (w - 1) else v)
        return x
    def _iconst(self, f, x, y, op):
        if not isinstance(x, T.Ptr) and not isinstance(y, T.Ptr) and x.is_const() and y.is_const():
            return T.lconst(f(int(x.const()), int(y.const())))
        return T.latom(T.A.get('fn', (op, x, y)))
    def icmp(self, p, a, c):
        pr = {'eq': 'eq', 'ne': 'ne', 'slt': 'lt', 'sle': 'le', 'sgt': 'gt', 'sge': 'ge', 'ult': 'lt', 'ule': 'le', 'ugt': 'gt', 'uge': 'ge'}[p]
        def leaf(x, y):
            if isinstance(x, T.Ptr) or isinstance(y, T.Ptr):
                if isinstance(x, T.Ptr) and isinstance(y, T.Ptr):
                    if x.base == y.base:
                        d = x.off - y.off
                        return T.lconst(1 if {'eq': d == 0, 'ne': d != 0, 'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0}[pr] else 0)
                    if pr in ('eq', 'ne'):
                        # distinct objects: fresh allocations / null / globals / distinct argument bases
                        return T.lconst(0 if pr == 'eq' else 1)
                raise Unsupported('pointer comparison')
            return None
        # combine leafwise; non-pointer leaves go through sign diagrams
        def rec(x, y):
            if type(x) is not T.Node and type(y) is not T.Node:
                r = leaf(x, y)
                return r if r is not None else T.icmp(pr, x, y)
            v = min(T._var(x), T._var(y))
            kx, ky = T._kids(x, v), T._kids(y, v)
            return T.select3(v, rec(kx[0], ky[0]), rec(kx[1], ky[1]), rec(kx[2], ky[2]))
        if self.haspt(a) or self.haspt(c): return rec(a, c)
        return T.icmp(pr, a, c)
    def haspt(self, x):
        while type(x) is T.Node: x = x.p
        return isinstance(x, T.Ptr)
    def call(self, I, mem):
        r, ty = I[1], I[3]
        cal, args = I[4], I[5]
        V = self.vals; val = self.val
        n = cal[1:] if cal[0] == '@' else None
        if n is None: raise Unsupported('indirect call')
        if n.startswith('llvm.'):
            b = n.split('.')[1]
            if b == 'fabs': V[r] = T.fabs(val(args[0])); return
            if b == 'sqrt': V[r] = T.sqrt(val(args[0])); return
            if b in ('sin', 'cos', 'exp', 'log'): V[r] = T.fn1(b, val(args[0])); return
            if b == 'pow': V[r] = self.pow(val(args[0]), val(args[1])); return
            if b in ('minnum', 'smin', 'umin', 'minimum'):
                x, y = val(args[0]), val(args[1]); V[r] = T.ite(T.cmp('lt', x, y), x, y); return
            if b in ('maxnum', 'smax', 'umax', 'maximum'):
                x, y = val(args[0]), val(args[1]); V[r] = T.ite(T.cmp('gt', x, y), x, y); return
            if b == 'abs': V[r] = T.fabs(val(args[0])); return
            if n.startswith('llvm.usub.sat'):
                x = T.sub(val(args[0]), val(args[1])); V[r] = T.ite(T.cmp('gt', x, T.lconst(0)), x, T.lconst(0)); return
            if b in ('fmuladd', 'fma'): V[r] = T.add(T.mul(val(args[0]), val(args[1])), val(args[2])); return
            if b == 'memset':
                self.memset(val(args[0]), args[1], args[2], mem); return
            if b in ('memcpy', 'memmove'):
                self.memcpy(val(args[0]), val(args[1]), args[2], mem); return
            if b in ('floor', 'ceil', 'round', 'trunc', 'rint'): V[r] = T.fn1(b, val(args[0])); return
            if b == 'copysign':
                V[r] = T.fnn('copysign', val(args[0]), val(args[1])); return
            if b in ('strip', 'launder') and '.invariant.group' in n: V[r] = val(args[0]); return
            if b in ('stacksave', 'stackrestore', 'dbg', 'trap', 'prefetch'): return
            raise Unsupported('intrinsic ' + n)
        if n in SIMPLE_CALLS: V[r] = T.fn1(SIMPLE_CALLS[n], val(args[0])); return
        if n == 'sqrt': V[r] = T.sqrt(val(args[0])); return
        if n == 'fabs': V[r] = T.fabs(val(args[0])); return
        if n == 'atan2': V[r] = T.fnn('atan2', val(args[0]), val(args[1])); return
        if n == 'pow': V[r] = self.pow(val(args[0]), val(args[1])); return
        if n in ('fmin',): x, y = val(args[0]), val(args[1]); V[r] = T.ite(T.cmp('lt', x, y), x, y); return
        if n in ('fmax',): x, y = val(args[0]), val(args[1]); V[r] = T.ite(T.cmp('gt', x, y), x, y); return
        if n in ('_Znwm', '_Znam', 'malloc'):
            self.nheap = getattr(self, 'nheap', 0) + 1
            V[r] = T.mkptr('heap%d_%s' % (self.nheap, r), 0); return
        if n in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free'): return
        if self.events is not None:
            h = self.events(self, n, self.mod['decls'].get(n, n), I, mem)
            if h: return
        raise Unsupported('call to ' + self.mod['decls'].get(n, n))
    def pow(self, a, b):
        def g(x, y):
            if y.is_const():
                c = y.const()
                if c.denominator == 1 and 0 <= c <= 8:
                    z = T.lconst(1)
                    for _ in range(int(c)): z = T.lmul(z, x)
                    return z
                if c == Fraction(1, 2): return T.lsqrt(x)
            return T.latom(T.A.get('fn', ('pow', x, y)))
        return T.apply('pow', g, a, b)
    def length(self, n, what):
        if n[0] == 'i': return int(n[1:])
        x = self.val(n)
        if type(x) is T.Node or isinstance(x, T.Ptr) or not x.is_const(): raise Unsupported(what + ' size')
        return int(x.const())
    def memset(self, p, v, n, mem):
        if v not in ('i0', 'i-1'): raise Unsupported('memset %s %s' % (v, n))
        n = self.length(n, 'memset')
        if not isinstance(p, T.Ptr): raise Unsupported('memset ptr')
        for (b, o, z) in list(mem):
            if b == p.base and o < p.off + n and p.off < o + z: del mem[(b, o, z)]
        self.zero = getattr(self, 'zero', [])
        if n % 8 == 0:
            for o in range(0, n, 8): mem[(p.base, p.off + o, 8)] = T.lconst(int(v[1:]))
        else:
            for o in range(0, n): mem[(p.base, p.off + o, 1)] = T.lconst(int(v[1:]))
    def memcpy(self, d, s, n, mem):
        n = self.length(n, 'memcpy')
        if not isinstance(d, T.Ptr): raise Unsupported('memcpy ptr')
        if not isinstance(s, T.Ptr): raise Unsupported('memcpy ptr')
        src = [(o - s.off, z, v) for (b, o, z), v in mem.items() if b == s.base and s.off <= o and o + z <= s.off + n]
        for (b, o, z) in list(mem):
            if b == d.base and o < d.off + n and d.off < o + z: del mem[(b, o, z)]
        cov = set()
        for o, z, v in src:
            mem[(d.base, d.off + o, z)] = v
            cov.update(range(o, o + z))
        for o in range(0, n - 7, 8):
            if not any(x in cov for x in range(o, o + 8)):
                v = self.initial((s.base, s.off + o, 8))
                if v is not None: mem[(d.base, d.off + o, 8)] = v

# ------------------------------------------------------------------ driver
def parse_ann(path):
    """annotations:  //@ name [key=value ...]   key: ties=strict|ignore, outs=.., anchor=, assume=<poly expr sign>"""
    out = {}
    for line in open(path):
        m = re.match(r'\s*//@\s*(\w+)\s*(.*)', line)
        if m:
            d = {'assume': []}
            for kv in re.findall(r'(\w+)=("[^"]*"|\S+)', m.group(2)):
                v = kv[1].strip('"')
                if kv[0] == 'assume': d['assume'] += [x.strip() for x in v.split(',')]
                else: d[kv[0]] = v
            out[m.group(1)] = d
    return out

def in_atom(i):
    return T.A.get('mem', ('arg0', 8 * i, 8), 'in[%d]' % i)

def parse_poly(s):
    class P:
        def __init__(self, p): self.p = p
        def __add__(a, b): return P(T.padd(a.p, w(b).p))
        __radd__ = __add__
        def __sub__(a, b): return P(T.psub(a.p, w(b).p))
        def __rsub__(a, b): return P(T.psub(w(b).p, a.p))
        def __mul__(a, b): return P(T.pmul(a.p, w(b).p))
        __rmul__ = __mul__
        def __neg__(a): return P(T.pscale(a.p, Fraction(-1)))
        def __pow__(a, n): return P(T.ppow(a.p, n))
    def w(x): return x if isinstance(x, P) else P(T.pconst(Fraction(x)))
    class In:
        def __getitem__(self, i): return P(T.patom(in_atom(i)))
    return w(eval(s, {'in_': In(), 'i': In(), 'Fraction': Fraction})).p

def apply_assume(lst):
    """'in_[3]>0', 'in_[1]-in_[0]>=0' """
    lin = []
    for a in lst:
        m = re.match(r'(.*?)(>=|>|==|<=|<)\s*0$', a)
        p = parse_poly(m.group(1).replace('in[', 'in_['))
        op = m.group(2)
        if op in ('<', '<='): p = T.pscale(p, Fraction(-1)); op = {'<': '>', '<=': '>='}[op]
        if len(p.t) == 1 and op in ('>', '>='):
            (mm, c), = p.t.items()
            if len(mm) == 1 and mm[0][1] == 1:
                T.A.nonneg.add(mm[0][0])
                if op == '>': T.A.pos.add(mm[0][0])
                if op == '>=': T.ASSUME[T.patom(mm[0][0])] = {0, 1}
                else: T.ASSUME[T.patom(mm[0][0])] = {1}
                continue
        c, mono, q = T.content(p)
        full = T.pscale(p, 1 / c)
        s = 1 if c > 0 else -1
        if mono: raise Broken('assumption must be primitive: ' + a)
        if op == '==': T.ASSUME[full] = {0}
        else:
            T.ASSUME[full] = {s} if op == '>' else {0, s}
            lin.append((p, op == '>'))
    return lin

def out_offsets(ev, base='arg1'):
    return {k: v for k, v in ev.finalmem.items() if k[0] == base}

def parse_let(s):
    out = {}
    for x in re.findall(r'in\[(\d+)\]=(sqrt\()?([\d/]+)', s or ''):
        v = T.lconst(Fraction(x[2]))
        out[int(x[0])] = T.lsqrt(v) if x[1] else v
    return out

def compare_pair(fi, fs, ann, alts=()):
    """-> (n_outputs, cells, [mismatch text])"""
    T.reset()
    lin = apply_assume(ann.get('assume', []))
    lets = {('arg0', 8 * k, 8): v for k, v in parse_let(ann.get('let')).items()}
    loops = ann.get('loops', 'unroll')
    Eval.lin = lin
    ei = Eval(fi, lets=lets, loops=loops).run()
    oi = out_offsets(ei)
    first = None; cells = 0
    for fs in [fs] + list(alts):
        es = Eval(fs, lets=lets, loops=loops).run()
        os_ = out_offsets(es)
        n, c, bad = compare_outs(oi, os_, ei, es, ann, lin)
        cells += c
        if first is None: first = (n, bad)
        if not bad: first = (n, bad); break
    return first[0], cells, first[1], ei

def compare_outs(oi, os_, ei, es, ann, lin):
    bad = []; cells = 0
    names = ann.get('names', '').split(',') if ann.get('names') else []
    keys = sorted(set(oi) | set(os_))
    def get(d, e, k):
        v = d.get(k)
        return v if v is not None else e.initial(k)   # a conditional output missing altogether
    g = int(ann.get('group', 0))
    if g:
        ks = [k[1] // 8 for k in keys]
        rows = lambda d, e: [[get(d, e, (keys[0][0], 8 * (j * g + t), 8)) for t in range(g)] for j in range((max(ks) + g) // g)]
        A_, B_ = rows(oi, ei), rows(os_, es)
        left = list(B_)
        for j, a in enumerate(A_):
            for b in left:
                if all(T.compare(x, y, assume=lin) is None for x, y in zip(a, b)):
                    left.remove(b); break
            else:
                bad.append(('group%d' % j, 'code gives the element (%s), which is not in the specified set' % ', '.join(T.lstr(x) if not isinstance(x, T.Node) else '...' for x in a)))
        return len(keys), len(A_), bad
    seen = {}
    for k in keys:
        a, b = get(oi, ei, k), get(os_, es, k)
        idx = k[1] // 8
        ties = ann.get('ties', 'strict')
        ign = ann.get('igntie')
        if ign and str(idx) in ign.split(','): ties = 'ignore'
        if (a, b, ties) in seen: m = seen[a, b, ties]
        else:
            m = seen[a, b, ties] = T.compare(a, b, ties=ties, assume=lin)
            cells += getattr(T.compare, 'cells', 0)
        if m is not None:
            nm = names[idx] if idx < len(names) else 'out[%d]' % idx
            bad.append((nm, str(m)))
    return len(keys), cells, bad

def srclines(ev, mod):
    out = {}
    for l in ev.lines:
        for s in mod['locs'][l].split('<'):
            m = re.match(r'(.*?):(\d+)@(.*)', s)
            if m and ('/include/fcl/' in m.group(1) or '_work/shadow' in m.group(1)):
                out.setdefault(relpath(m.group(1)), set()).add(int(m.group(2)))
    return out
def fmtlines(d):
    return '; '.join('%s:%s' % (f, ','.join(map(str, sorted(l)[:12]))) for f, l in sorted(d.items()))

def load_probes(src, drop=(), pure=(), extra=(), pipeline='norm', defs=()):
    bc, pruned = bitcode_pruned(src, extra=list(defs) + ['-fno-access-control', '-fno-strict-aliasing', '-I' + os.path.join(VERIF, 'probes')])
    mod = dump([bc] + plain_sources(), entries=['^(impl|spec|alt[0-9]*)_'], drop=drop, pure=pure, pipeline=pipeline, inline_all=True, extra=extra, globals_=True)
    mod['pruned'] = pruned
    return mod

class Lines:
    def __init__(self, l): self.lines = l
def check_file(r, src, drop=(), pure=(), min_pairs=1, only=None):
    mod = load_probes(src, drop, pure)
    ann = parse_ann(src)
    fns = {f['name']: f for f in mod['functions']}
    names = sorted(n[5:] for n in fns if n.startswith('impl_'))
    missing = [n for n in ann if n not in names]
    if missing and not mod.get('pruned'): raise Broken('annotated probes missing: %s' % missing)
    for x in mod.get('pruned', ()): r.broken.append('does not compile against this tree: ' + x)
    if len(names) < (min_pairs // 2 if mod.get('pruned') else min_pairs): raise Broken('only %d probe pairs in %s' % (len(names), src))
    todo = []
    for n in names:
        if only and n not in only: continue
        if 'spec_' + n not in fns and mod.get('pruned'): continue
        if 'spec_' + n not in fns: raise Broken('no specification for ' + n)
        todo.append(n)
    def one(n):
        a = ann.get(n, {}); t0 = time.time()
        try:
            alts = [Fn(f, mod) for m, f in sorted(fns.items()) if re.match(r'alt\d*_' + n + '$', m)]
            with limit(300): k, cells, bad, ev = compare_pair(Fn(fns['impl_' + n], mod), Fn(fns['spec_' + n], mod), a, alts)
        except (TooLong, RecursionError, MemoryError) as e:
            return '%s: %s' % (n, 'out of time' if isinstance(e, TooLong) else type(e).__name__)
        except Unsupported as e:
            return '%s: %s' % (n, e)
        if os.environ.get('E3_TIME'): print('%6.1f s %s' % (time.time() - t0, n), flush=True)
        return n, k, cells, bad, Lines(ev.lines)
    results = []
    for x in pmap(one, todo):
        if isinstance(x, str): r.broken.append(x)
        else: results.append(x + (ann.get(x[0], {}), mod))
    return results

def report_file(r, src, **kw):
    res = check_file(r, src, **kw)
    obl = 0; cells = 0; samples = []
    for n, k, c, bad, ev, a, mod in res:
        obl += k; cells += c
        lines = srclines(ev, mod)
        for nm, txt in bad:
            r.violation('%s/%s' % (n, nm), '%s: output %s differs from its specification %s\n    analysed source: %s' % (a.get('what', n), nm, txt, fmtlines(lines)))
        samples.append({'function': n, 'what': a.get('what', ''), 'outputs': k, 'cells': c, 'source_lines': fmtlines(lines)[:300]})
    cov = r.cov
    cov['obligations'] = cov.get('obligations', 0) + obl
    cov['discharged'] = cov.get('discharged', 0) + obl - sum(len(x[3]) for x in res)
    cov['functions_analysed'] = cov.get('functions_analysed', 0) + len(res)
    cov['cells_compared'] = cov.get('cells_compared', 0) + cells
    cov.setdefault('samples', []).extend(samples)
    return res
