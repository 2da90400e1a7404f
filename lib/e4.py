"""Event-trace normal forms: gated-SSA value numbering (e3) in which selected calls
stay opaque.  A call is pure (its result is a function of its arguments), reads
the world (function of arguments and of all earlier effects) or writes it (one
more entry of the trace).  The trace is an ordinary value, so the trace of the
code and the trace of a reference procedure are compared like any other output:
for every combination of branch outcomes the same effects, with the same
arguments, in the same order, must happen."""
import os, re, time
import terms as T, e3
from terms import Unsupported
from common import *

class Ev:
    """one trace entry / opaque result (payload of an 'ev' atom)"""
    __slots__ = ('k',)
    def __init__(s, k): s.k = k
    def __hash__(s): return hash(s.k)
    def __eq__(s, o): return s.k == o.k
    depth = 0
    def text(s):
        Ev.depth += 1
        try: return s._text()
        finally: Ev.depth -= 1
    def _text(s):
        kind, name, shape, leaves, world = s.k
        if Ev.depth > 2 and leaves: return '%s#%03x' % (name, hash(s) & 0xfff)
        it = iter(leaves)
        def one(sh):
            if sh == 'v': return T.lstr(next(it))
            if sh[0] == 'm': return '{%s}' % ', '.join('+%d: %s' % (o, one(x)) for o, x in sh[1])
            return '?'
        a = ', '.join(one(x) for x in shape)
        sub = '' if kind in 'pw' else kind[1:]
        return '%s(%s)%s' % (name, a, sub)
def chain(world):
    """trace entries of a world leaf"""
    out = []
    while isinstance(world, T.Leaf):
        at = sorted(world.num.atoms())
        if len(at) != 1 or T.A.tab[at[0]][0] != 'ev': break
        e = T.A.tab[at[0]][1]
        out.append(e.text()); world = e.k[4]
    return out[::-1]

WORLD = ('@world', 0, 8)
class TraceEval(e3.Eval):
    def __init__(self, fn, rules=(), **kw):
        self.rules = rules; self.skipthis = kw.pop('skipthis', ()); self.seen_events = {}
        self.alias = kw.pop('alias', 'strict'); self.nonnull = kw.pop('nonnull', ())
        super().__init__(fn, **kw)
    def classify(self, dem, name):
        self.outs = ()
        if name.startswith('evp_'): return 'p', 0, name
        m = re.match(r'evw_\w*_out(\d+)$', name)
        if m: self.outs = (int(m.group(1)),)
        if name.startswith('evr_'): return 'r', 0, name
        if name.startswith('evw_'): return 'w', 0, name
        for kind, rx, skip, nm, outs in self.rules:
            m = rx.search(dem)
            if m:
                self.outs = outs
                return kind, skip, (nm if nm else re.sub(r'\(.*', '', dem) if kind != 'n' else dem)
        return None
    def initial(self, k):
        if k == WORLD: return T.lconst(0)
        return super().initial(k)
    def load(self, ptr, sz, mem, ty):
        if self.alias == 'strict':
            for c, p in self.ptrs(ptr):
                if isinstance(p, T.Ptr):
                    rt = root(p.base)
                    for b, o, z in mem:
                        if b != p.base and root(b) == rt and (b.endswith('}') or p.base.endswith('}')): raise Unsupported('possible aliasing of array elements')
        return super().load(ptr, sz, mem, ty)
    def icmp(self, p, a, c):
        if p in ('eq', 'ne') and (self.haspt(a) or self.haspt(c)):
            def leaf(x, y):
                if isinstance(x, T.Ptr) and isinstance(y, T.Ptr):
                    if x is y: r = T.TRUE()
                    elif x.base == y.base: r = T.FALSE()
                    else:
                        loc = lambda q: q.base.startswith(('alloca', 'heap', '@'))
                        if loc(x) or loc(y): r = T.FALSE()
                        else:
                            u, v = sorted((x, y), key=lambda q: (q.base != 'null', q.base, q.off))
                            if u.base == 'null' and v.base.startswith('arg') and '*' not in v.base: r = T.FALSE()
                            elif u.base == 'null' and v.base in self.nonnull: r = T.FALSE()
                            elif u.base == 'null': r = self.bool_atom(T.A.get('fn', ('isnull', v)))
                            else: r = self.bool_atom(T.A.get('fn', ('same', u, v)))
                elif isinstance(x, T.Ptr) or isinstance(y, T.Ptr):
                    q, o = (x, y) if isinstance(x, T.Ptr) else (y, x)
                    if q.base == 'null': r = T.cmp('eq', o, T.lconst(0))
                    else: r = self.bool_atom(T.A.get('fn', ('same', q, o)))
                else: r = T.cmp('eq', x, y)
                return r
            def rec(x, y):
                if type(x) is not T.Node and type(y) is not T.Node: return leaf(x, y)
                v = min(T._var(x), T._var(y))
                kx, ky = T._kids(x, v), T._kids(y, v)
                return T.select3(v, rec(kx[0], ky[0]), rec(kx[1], ky[1]), rec(kx[2], ky[2]))
            r = rec(a, c)
            return r if p == 'eq' else T.bnot(r)
        return super().icmp(p, a, c)
    def bool_atom(self, at):
        T.A.nonneg.add(at)
        return T.apply('bool', lambda l: T.lconst(1 if l.const() > 0 else 0), T.sign_prim(T.patom(at)))
    # ---------------------------------------------------------------- events
    def call(self, I, mem):
        cal = I[4]
        r, ty = I[1], I[3]
        if cal[0] == '%':
            f = self.val(cal)
            if type(f) is T.Node and not any(isinstance(l, T.Ptr) and l.base.startswith('@') for _, l in self.ptrs(f)):
                return self.event('w', 'indirect', r, ty, [f] + [self.val(a) for a in I[5]], mem)
            if not isinstance(f, T.Ptr): raise Unsupported('indirect call through a computed pointer ' + (T.lstr(f) if type(f) is not T.Node else 'Node %s'%T.A.tab[abs(f.v)][0] if isinstance(f.v,int) else str(f.v)))
            if f.base.startswith('@'): n = f.base[1:]
            else:
                return self.event('w', 'indirect', r, ty, [f] + [self.val(a) for a in I[5]], mem)
        elif cal[0] == '@': n = cal[1:]
        else: raise Unsupported('call')
        dem = self.mod['decls'].get(n, n)
        if n.endswith('.rec'): dem = self.mod['decls'].get(n[:-4], dem)
        k = self.classify(dem, n)
        if k is None and n in self.mod.get('consts', ()) and r:
            c = self.mod['consts'][n]
            self.vals[r] = (T.TRUE() if c else T.FALSE()) if ty == 'i1' else T.lconst(c); return
        if k is None:
            if cal[0] == '%': raise Unsupported('indirect call to ' + dem)
            return super().call(I, mem)
        kind, skip, name = k
        if kind == 'z':
            if r: self.vals[r] = T.FALSE() if ty == 'i1' else T.lconst(0)
            return
        if kind == 'one':
            if r: self.vals[r] = T.TRUE()
            return
        if kind == 'n': 
            if r: self.vals[r] = T.latom(T.A.get('poison', 0))
            return
        self.seen_events[name] = self.seen_events.get(name, 0) + 1
        args = []
        for a in I[5][skip:]:
            try: args.append(self.val(a))
            except Unsupported:
                if a[0] != '%': raise
                args.append(T.latom(T.A.get('poison', 0)))
        return self.event(kind, name, r, ty, args, mem, self.outs if kind[0] == 'w' else ())
    def snapshot(self, p, mem, depth=0):
        """content of memory behind a pointer"""
        out = []
        for (b, o, z), v in sorted(mem.items(), key=lambda kv: (kv[0][0], kv[0][1], kv[0][2])):
            if b != p.base: continue
            loc = b.startswith(('alloca', 'heap'))
            if loc and o < p.off: continue
            if not loc:
                i0 = self.initial((b, o, z))
                if self.haspt(v) and not isinstance(i0, T.Ptr): i0 = T.mkptr('arg*%s+%d' % (b, o), 0)
                v = T.ite(self.cur, v, i0)
                if v is i0: continue
                self.snap0[id(v)] = (v, i0)
            if type(v) is not T.Node and not isinstance(v, T.Ptr) and any(T.A.tab[a][0] in ('undef', 'poison') for a in v.num.atoms()): continue
            out.append((o - p.off, v))
        return out
    def nullable(self, v):
        if v.off == 0 and v.base not in self.nonnull and v.base.startswith('arg*') and not v.base.startswith('arg*ev'):
            return T.ite(self.bool_atom(T.A.get('fn', ('isnull', v))), T.mkptr('null', 0), v)
        return v
    def nullables(self, v):
        if type(v) is T.Node: return T.select3(v.v, self.nullables(v.n), self.nullables(v.z), self.nullables(v.p))
        return self.nullable(v) if isinstance(v, T.Ptr) else v
    def event(self, kind, name, r, ty, args, mem, outs=()):
        # expand arguments into (shape, diagrams)
        leaves = []; same = {}; self.snap0 = {}
        def enc(v, depth):
            if type(v) is T.Node:
                if self.haspt(v):
                    for c, l in self.ptrs(v):
                        if isinstance(l, T.Ptr) and l.base.startswith(('alloca', 'heap')): raise Unsupported('conditional local pointer passed to ' + name)
                    v = self.nullables(v)
                leaves.append(v); return 'v'
            if isinstance(v, T.Ptr):
                loc = v.base.startswith(('alloca', 'heap'))
                if depth < 3:
                    sn = self.snapshot(v, mem)
                    if loc or sn:
                        if not loc: leaves.append(self.nullable(v))
                        body = []
                        for o, x in sn:
                            at = len(leaves); sh = enc(x, depth + 1)
                            if sh == 'v' and id(x) in self.snap0 and len(leaves) == at + 1: same[at] = self.snap0[id(x)][1]
                            body.append((o, sh))
                        body = tuple(body)
                        return ('m', body) if loc else ('m', (((-1, 'v'),) + body))
                if loc: return ('m', ())
                v = self.nullable(v)
            leaves.append(v); return 'v'
        shape = tuple(enc(a, 0) for a in args)
        w = mem.get(WORLD)
        if w is None: w = T.lconst(0)
        pure = kind[0] == 'p'
        # prune alternatives excluded by the path condition
        dead = T.lconst(0)
        ds = [T.ite(self.cur, d, dead) if type(d) is T.Node else d for d in leaves]
        if not pure: w = T.ite(self.cur, w, dead) if type(w) is T.Node else w
        ds2 = ds + ([] if pure else [w])
        def prune(ls):
            """memory cells that hold their initial value where this alternative applies are no part of it"""
            drop = {i for i, v in same.items() if ls[i] is v or ls[i] == v}
            if not drop: return shape, ls
            n = [0]
            def walk(sh):
                if sh == 'v':
                    n[0] += 1
                    return None if n[0] - 1 in drop else sh
                if sh[0] != 'm': return sh
                b = tuple((o, w) for o, w in [(o, walk(x)) for o, x in sh[1]] if w is not None)
                return 'v' if len(b) == 1 and b[0] == (-1, 'v') else ('m', b)
            sh = tuple(walk(x) for x in shape)
            return sh, tuple(l for i, l in enumerate(ls) if i not in drop)
        fp = (name, shape, tuple((i, v) for i, v in sorted(same.items(), key=lambda x: x[0])))
        def mkres(*ls):
            sh, l2 = shape, ls if pure else ls[:-1]
            if same: sh, l2 = prune(l2)
            if pure: return T.latom(T.A.get('ev', Ev(('p', name, sh, l2, None))))
            return T.latom(T.A.get('ev', Ev((kind, name, sh, l2, ls[-1]))))
        if kind[0] == 'w':
            const = kind == 'w0'; kind = 'w'
            nw = T.apply(('ev', 'w') + fp, mkres, *ds2)
            mem[WORLD] = nw
            for k in [x if x >= 0 else len(args) + x for x in outs]:      # the callee may change the scalar (outp: pointer) behind this argument
                isp, k = k >= 1000, k % 1000
                p = args[k]
                if not isinstance(p, T.Ptr): raise Unsupported('conditional output argument of ' + name)
                key = (p.base, p.off, 8)
                if key not in mem and self.initial(key) is None: raise Unsupported('output argument of ' + name)
                fresh = T.apply(('evo', k), lambda l, k=k: T.latom(T.A.get('ev', Ev(('v', 'out%d' % k, (), (), l)))), nw)
                if isp: fresh = T.apply(('evop', k), lambda l: T.mkptr('arg*ev%d' % sorted(l.num.atoms())[0], 0), fresh)
                mem[key] = T.ite(self.cur, fresh, mem.get(key, self.initial(key)))
            if r is None or ty == 'void': return
            if const: self.vals[r] = T.FALSE() if ty == 'i1' else T.lconst(0); return
            w = nw
            ds2 = [nw]
            def mkres(*ls): return T.latom(T.A.get('ev', Ev(('v', 'result', (), (), ls[0]))))
        if r is None or ty == 'void': return
        if ty == 'i1':
            def g(*ls):
                at = sorted(mkres(*ls).num.atoms())[0]
                return T.latom(at)
            v = T.apply(('evr', kind) + fp, g, *ds2)
            self.vals[r] = self.as_bool(v)
        elif ty == 'ptr':
            def g(*ls):
                at = sorted(mkres(*ls).num.atoms())[0]
                return T.mkptr('arg*ev%d' % at, 0)
            self.vals[r] = T.apply(('evp', kind) + fp, g, *ds2)
        else:
            self.vals[r] = T.apply(('evr', kind) + fp, mkres, *ds2)
    def as_bool(self, v):
        """sign>0 of each leaf atom, as a diagram"""
        if type(v) is not T.Node: return self.bool_atom(sorted(v.num.atoms())[0]) if not v.is_const() else v
        memo = self.__dict__.setdefault('_bm', {})
        k = v
        if k in memo: return memo[k]
        r = T.select3(v.v, self.as_bool(v.n), self.as_bool(v.z), self.as_bool(v.p))
        memo[k] = r
        return r
def root(b):
    return b[:b.rindex('{')] if b.endswith('}') else b

def parse_rules(path, defs=()):
    """//! kind regex [skip=N] [name=X]     kind: p pure, r reads, w writes, n ignored; +drop: body removed"""
    rules = []; drop = []; rec = []
    for line in open(path):
        m = re.match(r'//!\s*(p|r|w0|w|n|z|one|recz|recw0|rec)(\+drop|\+pure)?\s+(\S+)(.*)', line)
        if not m: continue
        kind, flag, rx, rest = m.groups()
        kv = dict(re.findall(r'(\w+)=(\S+)', rest))
        if 'if' in kv and not any(d == '-D' + kv['if'] or d == '-D' + kv['if'].replace(':', '=') for d in defs): continue
        px = rx.replace('\\s', ' ').replace('\\d', '[0-9]').replace('\\w', '[A-Za-z0-9_]').replace('(?:', '(')
        if kind in ('rec', 'recz', 'recw0'):
            if px not in rec: rec.append(px)
            kind = kind[3:] or 'w'
        elif flag: drop.append((flag == '+pure', px))
        rules.append((kind, re.compile(rx), int(kv.get('skip', 0)), kv.get('name'), tuple(int(x) for x in kv.get('out', '').split(',') if x) + tuple(1000 + int(x) for x in kv.get('outp', '').split(',') if x)))
    return rules, drop, rec

def compare_pair(fi, fs, ann, rules, alts=()):
    T.reset(); T.SYMPTR[0] = True
    try:
        lin = e3.apply_assume(ann.get('assume', []))
        lets = {('arg0', 8 * k, 8): v for k, v in e3.parse_let(ann.get('let')).items()}
        kw = dict(rules=rules, lets=lets, loops=ann.get('loops', 'unroll'), alias=ann.get('alias', 'strict'), nonnull={'arg*arg0+%d' % (8 * int(x)) for x in ann.get('nonnull', '').split(',') if x})
        e3.Eval.lin = lin
        ei = TraceEval(fi, **kw).run()
        first = None; cells = 0
        for f in [fs] + list(alts):
            es = TraceEval(f, **kw).run()
            n, c, bad = compare_outs(ei, es, ann, lin)
            cells += c
            if first is None or not bad: first = (n, bad, es)
            if not bad: break
        return first[0], cells, first[1], ei, first[2]
    finally: T.SYMPTR[0] = False

def fmt_trace(w):
    c = chain(w)
    return ' ; '.join(c) if c else 'nothing'
def compare_outs(ei, es, ann, lin):
    outs = lambda e: {k: v for k, v in e.finalmem.items() if k[0] == 'arg1' or k == WORLD or (k[0].startswith('arg*') and ann.get('heap'))}
    a, b = outs(ei), outs(es)
    ann2 = dict(ann)
    wi, ws = a.pop(WORLD, T.lconst(0)), b.pop(WORLD, T.lconst(0))
    n, cells, bad = e3.compare_outs(a, b, ei, es, ann2, lin)
    m = T.compare(wi, ws, assume=lin)
    cells += T.compare.cells
    if m is not None:
        x, y = chain(m.a), chain(m.b)
        i = 0
        while i < len(x) and i < len(y) and x[i] == y[i]: i += 1
        bad.append(('effects', 'when %s: after [%s] the code does [%s], the reference does [%s]' % (T.cellstr(m.cell)[:2500], ' ; '.join(x[:i])[-300:] or 'start', ' ; '.join(x[i:i + 2])[:500] or 'nothing', ' ; '.join(y[i:i + 2])[:500] or 'nothing')))
    return n + 1, cells, bad

def load_probes(src, defs=(), only=None):
    rules, drop, rec = parse_rules(src, defs)
    bc, pruned = bitcode_pruned(src, extra=list(defs) + ['-fno-access-control', '-fno-strict-aliasing', '-I' + os.path.join(VERIF, 'probes')])
    mod = dump([bc] + plain_sources(), entries=['^(impl|spec|alt[0-9]*)_' + ('(%s)$' % '|'.join(sorted(only)) if only else '')], drop=[x for p, x in drop if not p], pure=[x for p, x in drop if p], pipeline='norm', inline_all=True, extra=['--rec=' + x for x in rec], globals_=True)
    mod['pruned'] = pruned
    return rules, mod

def check_file(r, src, min_pairs=1, only=None, defs=(), events=True, skip=()):
    rules, mod = load_probes(src, defs, only)
    have = {d[2:].replace('=', ':') for d in defs}
    every = e3.parse_ann(src)
    ann = {n: a for n, a in every.items() if 'if' not in a or set(a['if'].split('|')) & have}
    fns = {f['name']: f for f in mod['functions']}
    names = sorted(n[5:] for n in fns if n.startswith('impl_'))
    missing = [n for n in ann if n not in names and not (only and n not in only)]
    if missing and not mod.get('pruned'): raise Broken('annotated probes missing: %s' % missing)
    for x in mod.get('pruned', ()): r.broken.append('does not compile against this tree: ' + x)
    if only: min_pairs = min(min_pairs, len(only))
    if len(names) < (min_pairs // 2 if mod.get('pruned') else min_pairs): raise Broken('only %d probe pairs in %s' % (len(names), src))
    todo = []
    for n in names:
        if n in skip or only and n not in only or n in every and n not in ann: continue
        if 'spec_' + n not in fns and mod.get('pruned'): continue
        if 'spec_' + n not in fns: raise Broken('no reference for ' + n)
        todo.append(n)
    def one(n):
        a = ann.get(n, {}); t0 = time.time()
        try:
            alts = [e3.Fn(f, mod) for m, f in sorted(fns.items()) if re.match(r'alt\d*_' + n + '$', m)]
            with limit(300): k, cells, bad, ev, es = compare_pair(e3.Fn(fns['impl_' + n], mod), e3.Fn(fns['spec_' + n], mod), a, rules, alts)
        except (TooLong, RecursionError, MemoryError) as e:
            return '%s: %s' % (n, 'out of time' if isinstance(e, TooLong) else type(e).__name__)
        except Unsupported as e:
            return '%s: %s' % (n, e)
        if os.environ.get('E3_TIME'): print('%6.1f s %s' % (time.time() - t0, n), flush=True)
        if events and not es.seen_events and a.get('events') != 'none': raise Broken('the reference of %s has no events' % n)
        return n, k, cells, bad, Lines(ev.lines), dict(ev.seen_events)
    results = []
    for x in pmap(one, todo):
        if isinstance(x, str): r.broken.append(x); continue
        n, k, cells, bad, ev, nev = x
        a = ann.get(n, {}); a['nev'] = nev
        results.append((n, k, cells, bad, ev, a, mod))
    return results

class Lines:
    def __init__(self, l): self.lines = l
class _Sink:
    def __init__(self): self.broken = []
def report_file(r, src, fallback=(), **kw):
    nb = len(r.broken)
    res = check_file(r, src, **kw)
    # a routine that is not the reference as a formula over arbitrary poses may still be it for unit normals:
    # it is accepted when it equals the reference for each of the concrete rotations (everything else arbitrary)
    redo = [x[0] for x in res if x[3]] + [b.split(':')[0] for b in r.broken[nb:] if not b.startswith('does not compile')]
    if fallback and redo:
        ok = set(redo)
        for d in fallback:
            sink = _Sink()
            try: again = check_file(sink, src, **dict(kw, defs=list(d), only=ok))
            except (Broken, Unsupported): again = []
            ok &= {x[0] for x in again if not x[3]}
            if not ok: break
        res = [x[:3] + ([],) + x[4:] if x[0] in ok else x for x in res]
        r.broken[nb:] = [b for b in r.broken[nb:] if b.split(':')[0] not in ok]
        if ok: r.cov.setdefault('only_for_concrete_rotations', []).extend(sorted(ok))
    obl = cells = 0; samples = []
    for n, k, c, bad, ev, a, mod in res:
        obl += k; cells += c
        lines = e3.srclines(ev, mod)
        for nm, txt in bad:
            r.violation('%s/%s' % (n, nm), '%s: %s differs from the reference procedure: %s\n    analysed source: %s' % (a.get('what', n), nm, txt, e3.fmtlines(lines)))
        samples.append({'function': n, 'what': a.get('what', ''), 'outputs': k, 'cells': c, 'opaque_calls': a.get('nev'), 'source_lines': e3.fmtlines(lines)[:300]})
    cov = r.cov
    cov['obligations'] = cov.get('obligations', 0) + obl
    cov['discharged'] = cov.get('discharged', 0) + obl - sum(len(x[3]) for x in res)
    cov['functions_analysed'] = cov.get('functions_analysed', 0) + len(res)
    cov['cells_compared'] = cov.get('cells_compared', 0) + cells
    cov.setdefault('samples', []).extend(samples)
    return res
