"""Value-flow normal forms.

Leaves are rational functions over atoms (inputs, sqrt/abs/trig of leaves);
values are decision diagrams over the signs of polynomials.  This is the value
domain of the gated-SSA value numbering in e3.py.  Everything is exact rational
algebra; no program is run and no solver is called.
"""
from fractions import Fraction
import math, sys, struct
sys.setrecursionlimit(100000)

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- atoms
class Atoms:
    def __init__(self):
        self.tab = []          # idx -> (kind, payload)
        self.idx = {}
        self.nonneg = set()    # atoms known >= 0
        self.pos = set()       # atoms known > 0
        self.ints = set()      # atoms of integer type
        self.name = []
    def get(self, kind, payload, name=None):
        k = (kind, payload)
        i = self.idx.get(k)
        if i is None:
            i = len(self.tab); self.idx[k] = i; self.tab.append(k)
            self.name.append(name if name is not None else None)
            if kind in ('sqrt', 'abs'): self.nonneg.add(i)
            if kind in ('PI', 'INF', 'BIG', 'E2'): self.nonneg.add(i); self.pos.add(i)
        return i
A = Atoms()

def reset():
    global A
    A.__init__()
    Poly._tab.clear(); _leaf.clear(); _node.clear(); _sa.clear(); _sal.clear()
    _memo.clear(); _selfmemo.clear(); ASSUME.clear(); _byid.clear()

# ---------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ('t', 'key', 'h', 'id', '__weakref__')
    _tab = {}
    def __new__(cls, t):
        key = frozenset(t.items())
        p = cls._tab.get(key)
        if p is None:
            p = object.__new__(cls); p.t = t; p.key = key; p.h = hash(key); p.id = len(cls._tab)
            cls._tab[key] = p
        return p
    def __hash__(self): return self.h
    def __eq__(self, o): return self is o
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)
    def const(self):
        return self.t.get((), Fraction(0))
    def is_zero(self): return not self.t
    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m: s.add(a)
        return s

def pconst(c):
    c = Fraction(c)
    return Poly({(): c} if c else {})
def patom(i): return Poly({((i, 1),): Fraction(1)})

MAXTERMS = 6000
def padd(a, b):
    if not a.t: return b
    if not b.t: return a
    r = dict(a.t)
    for m, c in b.t.items():
        x = r.get(m, 0) + c
        if x: r[m] = x
        else: r.pop(m, None)
    return Poly(r)
def pscale(a, c):
    if c == 1: return a
    if c == 0: return Poly({})
    return Poly({m: v * c for m, v in a.t.items()})
def psub(a, b): return padd(a, pscale(b, Fraction(-1)))

def _mmul(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for a, e in n: d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))

def _reduce_mono(m):
    """replace sqrt(x)^2 -> x and |x|^2 -> x^2; returns Poly or None if already reduced"""
    for a, e in m:
        if e >= 2:
            k, p = A.tab[a]
            if k == 'sqrt':
                rest = tuple((x, y) for x, y in m if x != a)
                r = ppow(p, e // 2)
                if e % 2: r = pmul(r, patom(a))
                return pmul(Poly({rest: Fraction(1)}), r)
            if k == 'abs':
                rest = tuple((x, y) for x, y in m if x != a)
                r = ppow(pmul(p, p), e // 2)
                if e % 2: r = pmul(r, patom(a))
                return pmul(Poly({rest: Fraction(1)}), r)
            if k == 'E2':   # irrational square root of a rational constant
                rest = tuple((x, y) for x, y in m if x != a)
                r = pconst(p ** (e // 2))
                if e % 2: r = pmul(r, patom(a))
                return pmul(Poly({rest: Fraction(1)}), r)
            if k == 'fn' and p[0] == 'sin':
                # sin^2 -> 1 - cos^2
                rest = tuple((x, y) for x, y in m if x != a)
                c = A.get('fn', ('cos', p[1]))
                r = ppow(Poly({(): Fraction(1), ((c, 2),): Fraction(-1)}), e // 2)
                if e % 2: r = pmul(r, patom(a))
                return pmul(Poly({rest: Fraction(1)}), r)
    return None

def pmul(a, b):
    if not a.t or not b.t: return Poly({})
    if len(a.t) * len(b.t) > MAXTERMS * 8: raise Unsupported('polynomial too large')
    r = {}; extra = None
    for m, c in a.t.items():
        for n, d in b.t.items():
            k = _mmul(m, n)
            if any(e >= 2 for _, e in k):
                red = _reduce_mono(k)
            else: red = None
            if red is not None:
                t = pscale(red, c * d)
                extra = t if extra is None else padd(extra, t)
                continue
            x = r.get(k, 0) + c * d
            if x: r[k] = x
            else: r.pop(k, None)
    p = Poly(r)
    if extra is not None: p = padd(p, extra)
    if len(p.t) > MAXTERMS: raise Unsupported('polynomial too large')
    return p
def ppow(a, n):
    r = pconst(1)
    while n:
        if n & 1: r = pmul(r, a)
        a = pmul(a, a) if n > 1 else a
        n >>= 1
    return r

def _deg(m): return sum(e for _, e in m)
def _mkey(m):
    # degree-lexicographic monomial order over atom indices
    return (_deg(m), tuple((-a, e) for a, e in m))
def lead(p):
    # lexicographic-by-dense-exponents order is admissible; use deglex
    return max(p.t, key=lambda m: (_deg(m), _dense(m)))
def _dense(m):
    # compare exponent vectors: lower atom index is more significant
    return tuple((-a, e) for a, e in m)
# deglex needs an admissible order; implement with explicit comparison
import functools
def _cmp(m, n):
    dm, dn = _deg(m), _deg(n)
    if dm != dn: return -1 if dm < dn else 1
    i = j = 0
    while i < len(m) and j < len(n):
        if m[i] == n[j]: i += 1; j += 1; continue
        (a, e), (b, f) = m[i], n[j]
        if a == b: return 1 if e > f else -1
        return 1 if a < b else -1
    if i < len(m): return 1
    if j < len(n): return -1
    return 0
_ck = functools.cmp_to_key(_cmp)
def lead(p): return max(p.t, key=_ck)

def mdiv(m, n):
    d = dict(m)
    for a, e in n:
        x = d.get(a, 0) - e
        if x < 0: return None
        if x: d[a] = x
        else: d.pop(a, None)
    return tuple(sorted(d.items()))

def pdivexact(a, b):
    """a / b if exact, else None"""
    if not a.t: return a
    if b.is_const(): return pscale(a, 1 / b.const())
    lb = lead(b); cb = b.t[lb]
    # quick reject
    if not b.atoms() <= a.atoms(): return None
    q = {}; r = dict(a.t); steps = 0
    bt = list(b.t.items())
    while r:
        lm = max(r, key=_ck)
        d = mdiv(lm, lb)
        if d is None: return None
        c = r[lm] / cb
        q[d] = q.get(d, 0) + c
        for m, v in bt:
            k = _mmul(m, d)
            if any(e >= 2 for _, e in k) and _reduce_mono(k) is not None: return None
            x = r.get(k, 0) - c * v
            if x: r[k] = x
            else: r.pop(k, None)
        steps += 1
        if steps > 4000: return None
    return Poly(q)

def prem(a, b):
    """remainder of a by the single polynomial b (b = 0 assumed)"""
    if b.is_const(): return a
    lb = lead(b); cb = b.t[lb]
    for _ in range(400):
        hit = None
        for m in a.t:
            d = mdiv(m, lb)
            if d is not None: hit = (m, d); break
        if not hit: return a
        m, d = hit
        a = psub(a, pmul(Poly({d: a.t[m] / cb}), b))
    return a

def content(p):
    """(rational content with sign of the leading term, monomial content, primitive part)"""
    if not p.t: return Fraction(0), (), p
    num = 0; den = 1
    for c in p.t.values():
        num = math.gcd(num, c.numerator); den = den * c.denominator // math.gcd(den, c.denominator)
    c = Fraction(num, den)
    if p.t[lead(p)] < 0: c = -c
    ms = list(p.t)
    mono = dict(ms[0])
    for m in ms[1:]:
        dm = dict(m)
        for a in list(mono):
            e = min(mono[a], dm.get(a, 0))
            if e: mono[a] = e
            else: del mono[a]
        if not mono: break
    mono = tuple(sorted(mono.items()))
    if mono:
        q = Poly({mdiv(m, mono): v / c for m, v in p.t.items()})
    else:
        q = pscale(p, 1 / c)
    return c, mono, q

def psqrt(p):
    """exact square root polynomial q with q*q == p, or None"""
    if not p.t: return p
    def fsq(c):
        if c < 0: return None
        n = math.isqrt(c.numerator); d = math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator: return Fraction(n, d)
        return None
    lm = lead(p)
    c = fsq(p.t[lm])
    if c is None or any(e % 2 for _, e in lm): return None
    if len(p.t) == 1:
        return Poly({tuple((a, e // 2) for a, e in lm): c})
    l = tuple((a, e // 2) for a, e in lm)
    q = Poly({l: c})
    for _ in range(60):
        r = psub(p, pmul(q, q))
        if not r.t: return q
        m = lead(r)
        d = mdiv(m, l)
        if d is None: return None
        q2 = padd(q, Poly({d: r.t[m] / (2 * c)}))
        if q2 is q or len(q2.t) <= len(q.t): return None
        q = q2
    return None

def nonneg_poly(p):
    """syntactic: sum of positive multiples of even/known-nonneg monomials"""
    if not p.t: return True
    return all(c > 0 and all(e % 2 == 0 or a in A.nonneg for a, e in m) for m, c in p.t.items()) or False
def psd_poly(p):
    """quadratic polynomial whose Gram matrix is positive semidefinite (exact LDL^T)"""
    if not p.t or len(p.t) > 60: return False
    vs = set()
    for m in p.t:
        if _deg(m) > 2: return False
        vs |= {a for a, _ in m}
    vs = [None] + sorted(vs); ix = {a: i for i, a in enumerate(vs)}
    n = len(vs); G = [[Fraction(0)] * n for _ in range(n)]
    for m, c in p.t.items():
        l = [ix[a] for a, e in m for _ in range(e)]
        while len(l) < 2: l.append(0)
        i, j = l
        if i == j: G[i][i] += c
        else: G[i][j] += c / 2; G[j][i] += c / 2
    for k in range(n):
        d = G[k][k]
        if d < 0: return False
        if d == 0:
            if any(G[k][j] for j in range(k, n)): return False
            continue
        for i in range(k + 1, n):
            f = G[i][k] / d
            if f:
                for j in range(k, n): G[i][j] -= f * G[k][j]
    return True
def pos_poly(p):
    if not nonneg_poly(p): return False
    return any(all(a in A.pos for a, e in m) for m in p.t) if p.t else False

# ---------------------------------------------------------------- leaves
_leaf = {}
class Leaf:
    """rational function num / prod(den)"""
    __slots__ = ('num', 'den', 'h', 'id')
    def __hash__(self): return self.h
    def __eq__(self, o): return self is o
    def is_const(self): return not self.den and self.num.is_const()
    def const(self): return self.num.const()

SYMPTR = [False]; _byid = {}
class Ptr:
    __slots__ = ('base', 'off', 'h')
def mkptr(base, off):
    k = ('P', base, off)
    l = _leaf.get(k)
    if l is None:
        l = Ptr(); l.base = base; l.off = off; l.h = hash(k); _leaf[k] = l
    return l

def _mkleaf(num, den):
    k = (num, den)
    l = _leaf.get(k)
    if l is None:
        l = object.__new__(Leaf); l.num = num; l.den = den; l.h = hash((num.h, tuple((d.h, e) for d, e in den))); l.id = len(_leaf)
        _leaf[k] = l
    return l

def mkrat(num, den):
    """den: dict Poly->exp"""
    if not num.t: return _mkleaf(num, ())
    out = {}
    stack = list(den.items())
    while stack:
        p, e = stack.pop()
        c, mono, q = content(p)
        if not p.t: raise ZeroDivisionError
        if c != 1: num = pscale(num, Fraction(1) / c ** e)
        for a, x in mono:
            k, pl = A.tab[a]
            if k == 'sqrt':
                # 1/s^n : multiply by s when odd
                n = x * e
                if n % 2: num = pmul(num, patom(a)); n += 1
                stack.append((pl, n // 2))
            elif k == 'abs':
                n = x * e
                if n % 2: num = pmul(num, patom(a)); n += 1
                stack.append((pl, n))
            elif k == 'E2':
                n = x * e
                if n % 2: num = pmul(num, patom(a)); n += 1
                num = pscale(num, Fraction(1) / pl ** (n // 2))
            else:
                pa = patom(a); out[pa] = out.get(pa, 0) + x * e
        if not q.is_const():
            out[q] = out.get(q, 0) + e
        elif q.const() != 1: num = pscale(num, Fraction(1) / q.const() ** e)
    # split den factors by one another where exact (cheap canonicalisation)
    for p in sorted(out, key=lambda p: p.id):
        while out.get(p, 0) > 0:
            q = pdivexact(num, p)
            if q is None: break
            num = q; out[p] -= 1
    den = tuple(sorted(((p, e) for p, e in out.items() if e > 0), key=lambda x: x[0].id))
    return _mkleaf(num, den)

def lconst(c): return _mkleaf(pconst(c), ())
def latom(i): return _mkleaf(patom(i), ())
def lpoly(p): return _mkleaf(p, ())

def ladd(a, b):
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(a, Ptr) and not isinstance(b, Ptr) and b.is_const(): return mkptr(a.base, a.off + int(b.const()))
        if isinstance(b, Ptr) and not isinstance(a, Ptr) and a.is_const(): return mkptr(b.base, b.off + int(a.const()))
        if isinstance(b, Ptr) and not isinstance(a, Ptr): a, b = b, a
        if isinstance(a, Ptr) and not isinstance(b, Ptr) and SYMPTR[0]:
            if a.base.endswith('}'):
                j = a.base.rindex('{'); b = ladd(_byid[int(a.base[j + 1:-1])], b); a = mkptr(a.base[:j], a.off)
                if b.is_const(): return mkptr(a.base, a.off + int(b.const()))
            k = b.num.const() if not b.den else Fraction(0)
            b = lsub(b, lconst(k)); _byid[b.id] = b
            return mkptr('%s{%d}' % (a.base, b.id), a.off + int(k))
        raise Unsupported('pointer arithmetic')
    if not a.den and not b.den: return _mkleaf(padd(a.num, b.num), ())
    da, db = dict(a.den), dict(b.den)
    l = dict(da)
    for p, e in db.items(): l[p] = max(l.get(p, 0), e)
    na, nb = a.num, b.num
    for p, e in l.items():
        x = e - da.get(p, 0)
        if x: na = pmul(na, ppow(p, x))
        x = e - db.get(p, 0)
        if x: nb = pmul(nb, ppow(p, x))
    return mkrat(padd(na, nb), l)
def lneg(a):
    if isinstance(a, Ptr): raise Unsupported('neg ptr')
    return _mkleaf(pscale(a.num, Fraction(-1)), a.den)
def addr(p): return ladd(latom(A.get('fn', ('addr', mkptr(p.base, 0)))), lconst(p.off))
def lsub(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base: return lconst(a.off - b.off)
    if isinstance(b, Ptr): b = addr(b); a = addr(a) if isinstance(a, Ptr) else a
    return ladd(a, lneg(b))
def lmul(a, b):
    if isinstance(a, Ptr) or isinstance(b, Ptr): raise Unsupported('ptr mul')
    if not a.den and not b.den: return _mkleaf(pmul(a.num, b.num), ())
    d = dict(a.den)
    for p, e in b.den: d[p] = d.get(p, 0) + e
    return mkrat(pmul(a.num, b.num), d)
class DivZero(Exception): pass
def linv(a):
    if not a.num.t: return None
    n = pconst(1)
    for p, e in a.den: n = pmul(n, ppow(p, e))
    return mkrat(n, {a.num: 1})
UNDEFDIV = None
def ldiv(a, b):
    i = linv(b)
    if i is None:
        if a.is_const() and a.const() == 0: return latom(A.get('NANV', 0, 'nan'))
        return lmul(a, latom(A.get('DIV0', 0, 'inf0')))
    return lmul(a, i)

def labs_poly(p):
    """|p| as Leaf"""
    if p.is_const(): return lconst(abs(p.const()))
    if nonneg_poly(p): return lpoly(p)
    if nonneg_poly(pscale(p, Fraction(-1))): return lpoly(pscale(p, Fraction(-1)))
    c, mono, q = content(p)
    r = pconst(abs(c))
    for a, e in mono:
        if e % 2 == 0 or a in A.nonneg: r = pmul(r, Poly({((a, e),): Fraction(1)}))
        else:
            if e > 1: r = pmul(r, Poly({((a, e - 1),): Fraction(1)}))
            r = pmul(r, patom(A.get('abs', patom(a))))
    if q.is_const(): return lpoly(pscale(r, abs(q.const())))
    s = known_sign_poly(q)
    if s is not None and s != 0:
        return lpoly(pmul(r, q if s > 0 else pscale(q, Fraction(-1))))
    return lpoly(pmul(r, patom(A.get('abs', q))))
def labs(a):
    if isinstance(a, Ptr): raise Unsupported('abs ptr')
    r = labs_poly(a.num)
    for p, e in a.den:
        d = labs_poly(ppow(p, e))
        r = ldiv(r, d)
    return r

def lsqrt(a):
    R = a.num
    d = pconst(1)
    for p, e in a.den:
        if e % 2 == 0: d = pmul(d, ppow(p, e // 2))
        else:
            d = pmul(d, ppow(p, (e + 1) // 2)); R = pmul(R, p)
    D = labs_poly(d)
    return ldiv(sqrt_poly(R), D)
def sqrt_poly(R):
    if not R.t: return lconst(0)
    if R.is_const():
        c = R.const()
        if c < 0: return latom(A.get('NANV', 0, 'nan'))
        n, s = _sqfree(c)
        if s == 1: return lconst(n)
        return lpoly(Poly({((A.get('E2', s), 1),): n}))
    q = psqrt(R)
    if q is not None: return labs_poly(q)
    c, mono, q = content(R)
    if c < 0: c = -c; q = pscale(q, Fraction(-1))
    n, s = _sqfree(c)
    out = lconst(n)
    rem = pscale(q, s)
    for a, e in mono:
        if e % 2: rem = pmul(rem, patom(a))
        if e // 2:
            out = lmul(out, labs_poly(Poly({((a, e // 2),): Fraction(1)})))
    qq = psqrt(rem)
    if qq is not None: return lmul(out, labs_poly(qq))
    return lmul(out, latom(A.get('sqrt', rem)))
def _sqfree(c):
    """c = n^2 * s, s squarefree-ish integer"""
    num = c.numerator * c.denominator; den = c.denominator
    n = 1; s = num; k = 2
    while k * k <= s and k < 2000:
        while s % (k * k) == 0: s //= k * k; n *= k
        k += 1
    r = math.isqrt(s)
    if r * r == s: n *= r; s = 1
    return Fraction(n, den), Fraction(s)

# ---------------------------------------------------------------- signs
_sa = {}      # Poly -> sign-atom index
_sal = []
ASSUME = {}   # Poly (primitive) -> set of allowed signs

def known_sign_poly(q):
    if q.is_const():
        c = q.const(); return (c > 0) - (c < 0)
    # dominant infinity
    for m, c in q.t.items():
        if len(m) == 1 and A.tab[m[0][0]][0] in ('INF',):
            return 1 if c > 0 else -1
    for m, c in q.t.items():
        if len(m) == 1 and A.tab[m[0][0]][0] in ('BIG',):
            return 1 if c > 0 else -1
    if pos_poly(q): return 1
    if pos_poly(pscale(q, Fraction(-1))): return -1
    s = ASSUME.get(q)
    if s is not None and len(s) == 1: return next(iter(s))
    return None

# decision diagrams ----------------------------------------------------------
_node = {}
_memo = {}
_selfmemo = {}
class Node:
    __slots__ = ('v', 'n', 'z', 'p', 'h', 'id')
    def __hash__(self): return self.h
    def __eq__(self, o): return self is o
def mk(v, n, z, p):
    if n is p and (z is n): return n
    q = _sal[v]
    if type(n) is Leaf and type(p) is Leaf and (z is n or z is p) and n is not p and not n.den and not p.den and lneg(p) is n and q.t:
        # (q < 0 ? -c*q : c*q)  is  |c*q|
        d = pdivexact(p.num, q)
        if d is not None and nonneg_poly(d): return labs(p)
        if d is not None and nonneg_poly(pscale(d, Fraction(-1))): return lneg(labs(p))
    s = ASSUME.get(q)
    if s is not None:
        if len(s) == 1: return {-1: n, 0: z, 1: p}[next(iter(s))]
        if -1 not in s: n = p
        if 1 not in s: p = n
        if 0 not in s: z = p if 1 in s else n
        if n is p and z is n: return n
    k = (v, n, z, p)
    x = _node.get(k)
    if x is None:
        x = object.__new__(Node); x.v = v; x.n = n; x.z = z; x.p = p; x.h = hash((v, n.h, z.h, p.h)); x.id = len(_node)
        _node[k] = x
        if x.id > MAXNODES: raise Unsupported('decision diagram too large')
    return x
MAXNODES = 400000
def _var(x): return x.v if type(x) is Node else 1 << 60
def _kids(x, v):
    if type(x) is Node and x.v == v: return x.n, x.z, x.p
    return x, x, x
def apply(op, fn, *xs):
    k = (op,) + xs
    r = _memo.get(k)
    if r is not None: return r
    if all(type(x) is not Node for x in xs): r = fn(*xs)
    else:
        v = min(_var(x) for x in xs)
        ks = [_kids(x, v) for x in xs]
        r = mk(v, apply(op, fn, *[y[0] for y in ks]), apply(op, fn, *[y[1] for y in ks]), apply(op, fn, *[y[2] for y in ks]))
    _memo[k] = r
    return r

def TRUE(): return lconst(1)
def FALSE(): return lconst(0)
def ite(c, a, b):
    if a is b: return a
    if type(c) is not Node:
        if isinstance(c, Ptr): return a
        if not c.is_const(): raise Unsupported('ite on non-boolean leaf')
        return a if c.const() != 0 else b
    return apply('ite', _ite_leaf, c, a, b) if False else _ite(c, a, b)
def _ite(c, a, b):
    if a is b: return a
    if type(c) is not Node:
        if isinstance(c, Ptr): return a
        return a if c.const() != 0 else b
    k = ('ite', c, a, b)
    r = _memo.get(k)
    if r is not None: return r
    v = min(_var(c), _var(a), _var(b))
    kc, ka, kb = _kids(c, v), _kids(a, v), _kids(b, v)
    r = mk(v, _ite(kc[0], ka[0], kb[0]), _ite(kc[1], ka[1], kb[1]), _ite(kc[2], ka[2], kb[2]))
    _memo[k] = r
    return r
def bnot(c): return apply('not', lambda l: lconst(0 if l.const() else 1), c)
def band(a, b): return _ite(a, b, FALSE())
def bor(a, b): return _ite(a, TRUE(), b)

def sign_poly(q):
    """MTBDD with leaves -1/0/1 for primitive-or-not polynomial q"""
    if not q.t: return lconst(0)
    c, mono, r = content(q)
    res = lconst(1 if c > 0 else -1)
    for a, e in mono:
        pa = patom(a)
        if e % 2 == 0:
            s = sign_prim(pa)
            s = apply('sgn2', lambda l: lconst(l.const() ** 2), s)
        else: s = sign_prim(pa)
        res = mul(res, s)
    if not r.is_const():
        if len(r.t) > 2 and all(e % 2 == 0 for _, e in lead(r)):
            for f in (1, -1):
                w = psqrt(pscale(r, Fraction(f)))
                if w is not None:
                    s = apply('sgn2', lambda l: lconst(l.const() ** 2), sign_poly(w))
                    return mul(mul(res, s), lconst(f))
        res = mul(res, sign_prim(r))
    return res
def sign_prim(q):
    s = known_sign_poly(q)
    if s is not None: return lconst(s)
    i = _sa.get(q)
    if i is None:
        i = len(_sal); _sa[q] = i; _sal.append(q)
        if (nonneg_poly(q) or psd_poly(q)) and q not in ASSUME: ASSUME[q] = {0, 1}
        elif (nonneg_poly(pscale(q, Fraction(-1))) or psd_poly(pscale(q, Fraction(-1)))) and q not in ASSUME: ASSUME[q] = {0, -1}
    return mk(i, lconst(-1), lconst(0), lconst(1))
def sign_leaf(l):
    if isinstance(l, Ptr): raise Unsupported('sign of pointer')
    r = sign_poly(l.num)
    for p, e in l.den:
        if e % 2: r = mul(r, sign_poly(p))
        # a zero denominator is excluded from the domain
    return r

def _bin(op, f):
    def g(a, b): return apply(op, f, a, b)
    return g
add = _bin('add', ladd); sub = _bin('sub', lsub); mul = _bin('mul', lmul); div = _bin('div', ldiv)
def neg(a): return apply('neg', lneg, a)
def sqrt(a): return apply('sqrt', lsqrt, a)
def fabs(a): return apply('abs', labs, a)
def sign(a):
    """sign as diagram (bottom-up composition of leaf signs)"""
    r = _selfmemo.get(a)
    if r is not None: return r
    if type(a) is not Node: r = sign_leaf(a)
    else:
        n, z, p = sign(a.n), sign(a.z), sign(a.p)
        r = select3(a.v, n, z, p)
    _selfmemo[a] = r
    return r
def select3(v, n, z, p):
    """diagram: if sign atom v negative then n ...; children may test earlier atoms"""
    k = ('sel', v, n, z, p)
    r = _memo.get(k)
    if r is not None: return r
    m = min(_var(n), _var(z), _var(p))
    if m > v: r = mk(v, n, z, p)
    elif m == v: r = mk(v, _kids(n, v)[0], _kids(z, v)[1], _kids(p, v)[2])
    else:
        a, b, c = _kids(n, m), _kids(z, m), _kids(p, m)
        r = mk(m, select3(v, a[0], b[0], c[0]), select3(v, a[1], b[1], c[1]), select3(v, a[2], b[2], c[2]))
    _memo[k] = r
    return r

def cmp(pred, a, b):
    """a pred b -> boolean diagram; pred in lt le gt ge eq ne"""
    s = sign(sub(a, b))
    t = {'lt': (1, 0, 0), 'le': (1, 1, 0), 'gt': (0, 0, 1), 'ge': (0, 1, 1), 'eq': (0, 1, 0), 'ne': (1, 0, 1)}[pred]
    return apply('c' + pred, lambda l: lconst(t[int(l.const()) + 1]), s)

def icmp(pred, a, b):
    """comparison of integers; 'less than' is brought to the form p + k < 0"""
    if pred in ('eq', 'ne'): return cmp(pred, a, b)
    k = ('icmp', pred, a, b)
    r = _memo.get(k)
    if r is None:
        def rec(d):
            if type(d) is Node: return select3(d.v, rec(d.n), rec(d.z), rec(d.p))
            return icmp_leaf(pred, d)
        r = _memo[k] = rec(sub(a, b))
    return r
def icmp_leaf(pred, l):
    if l.den or l.is_const() or not all(a in A.ints for a in l.num.atoms()) or any(c.denominator != 1 for c in l.num.t.values()): return cmp(pred, l, lconst(0))
    neg_ = pred in ('gt', 'ge')
    if pred in ('le', 'gt'): l = lsub(l, lconst(1))
    k = l.num.t.get((), Fraction(0))
    if content(padd(l.num, pconst(-k)))[0] < 0: l = lsub(lneg(l), lconst(1)); neg_ = not neg_   # l < 0  <=>  not (-l <= 0)
    r = cmp('lt', l, lconst(0))
    return bnot(r) if neg_ else r

def lfn(name, l):
    if isinstance(l, Ptr): raise Unsupported('fn of ptr')
    if l.is_const():
        c = l.const()
        if name in ('sin', 'tan', 'asin', 'atan') and c == 0: return lconst(0)
        if name in ('cos', 'exp') and c == 0: return lconst(1)
        if name in ('log',) and c == 1: return lconst(0)
        if name == 'acos' and c == 1: return lconst(0)
    # parity
    if name in ('sin', 'tan', 'cos', 'atan', 'asin'):
        c, mono, q = content(l.num)
        if c < 0:
            m = lneg(l)
            r = latom(A.get('fn', (name, m)))
            return r if name == 'cos' else lneg(r)
    return latom(A.get('fn', (name, l)))
def fn1(name, a):
    return apply('fn_' + name, lambda l: lfn(name, l), a)
def fnn(name, *xs):
    return apply('fn_' + name, lambda *l: latom(A.get('fn', (name,) + l)), *xs)

# ---------------------------------------------------------------- printing
def pstr(p):
    if not p.t: return '0'
    out = []
    for m in sorted(p.t, key=_ck, reverse=True)[:14]:
        c = p.t[m]
        s = '*'.join(aname(a) + ('^%d' % e if e > 1 else '') for a, e in m)
        cs = str(c) if c.denominator < 10 ** 6 else '%.17g' % float(c)
        if s: out.append((('' if c == 1 else '-' if c == -1 else cs + '*') + s))
        else: out.append(cs)
    t = ' + '.join(out).replace('+ -', '- ')
    if len(p.t) > 14: t += ' + ...(%d terms)' % len(p.t)
    return t
def _short(t, i): return t if len(t) < 90 else '%s..%s#%d' % (t[:36], t[-12:], i)
def aname(i):
    k, p = A.tab[i]
    if A.name[i]: return A.name[i]
    if k == 'sqrt': return 'sqrt(%s)' % pstr(p)
    if k == 'abs': return '|%s|' % pstr(p)
    if k == 'E2': return 'sqrt(%s)' % p
    if k == 'ev': return _short(p.text(), i)
    if k == 'fn': return _short('%s(%s)' % (p[0], ', '.join(lstr(x) for x in p[1:])), i)
    if k == 'in': return 'in[%d]' % p
    return '%s%s' % (k, p if p != 0 else '')
def lstr(l):
    if isinstance(l, Ptr):
        import re
        return '&%s+%d' % (re.sub(r'\{(\d+)\}', lambda m: '[%s]' % lstr(_byid[int(m.group(1))]), l.base), l.off)
    s = pstr(l.num)
    if l.den:
        s = '(%s) / (%s)' % (s, ' * '.join('(%s)%s' % (pstr(p), '^%d' % e if e > 1 else '') for p, e in l.den))
    return s
def cellstr(cell):
    return ' and '.join('%s %s 0' % (pstr(_sal[v]), {-1: '<', 0: '==', 1: '>'}[s]) for v, s in cell) or 'always'

# ---------------------------------------------------------------- comparison
def subst_leaf(l, eqs, signs):
    """simplify leaf under sign context: abs(p) -> +-p; polynomials equal 0 removed"""
    if isinstance(l, Ptr): return l
    def sp(p, depth=0):
        ch = False
        # abs atoms with known sign
        for a in sorted(p.atoms()):
            k, q = A.tab[a]
            if k == 'abs':
                s = signs(q)
                if s is not None:
                    p = substatom(p, a, lpoly(pscale(q, Fraction(s)) if s else pconst(0))); ch = True
                    return sp(p[0] if isinstance(p, tuple) else p, depth + 1) if depth < 20 else p
        for e in eqs:
            p = prem(p, e)
        return p
    n = sp(l.num)
    d = {}
    for p, e in l.den:
        q = sp(p)
        if not q.t: return None
        d[q] = d.get(q, 0) + e
    return mkrat(n, d)
def substatom(p, a, leaf):
    """replace atom a by polynomial leaf (den must be trivial)"""
    assert not leaf.den
    r = Poly({})
    for m, c in p.t.items():
        e = dict(m).get(a, 0)
        if e:
            rest = tuple((x, y) for x, y in m if x != a)
            r = padd(r, pmul(Poly({rest: c}), ppow(leaf.num, e)))
        else: r = padd(r, Poly({m: c}))
    return r

def autoreduce(eqs):
    out = []
    for e in eqs:
        for _ in range(2):
            for o in out: e = prem(e, o)
        if not e.t or e.is_const(): continue
        _, _, q = content(e)
        _, _, e = content(e) if not content(e)[1] else (0, 0, e)
        out = [x for x in (prem(o, e) for o in out) if x.t and not x.is_const()] + [e]
    return out

class Mismatch:
    def __init__(self, cell, a, b): self.cell = cell; self.a = a; self.b = b
    def __str__(self): return 'when %s: code gives %s, specification gives %s' % (cellstr(self.cell), lstr(self.a), lstr(self.b))

def compare(f, g, ties='strict', maxcells=20000, assume=()):
    """None if the two diagrams denote the same function, else a Mismatch."""
    okpairs = set(); n = [0]
    def rec(f, g, cell):
        if f is g or (f, g) in okpairs: return None
        if type(f) is not Node and type(g) is not Node:
            n[0] += 1
            if n[0] > maxcells: raise Unsupported('too many cells to discharge')
            return leafcmp(f, g, cell, ties, assume)
        v = min(_var(f), _var(g))
        kf, kg = _kids(f, v), _kids(g, v)
        c0 = n[0]
        al = ASSUME.get(_sal[v], (-1, 0, 1))
        for i, s in ((0, -1), (2, 1), (1, 0)):
            if s == 0 and ties == 'ignore': continue
            if s not in al: continue
            m = rec(kf[i], kg[i], cell + ((v, s),))
            if m is not None: return m
        if n[0] == c0: okpairs.add((f, g))
        return None
    m = rec(f, g, ())
    compare.cells = n[0]
    return m

def deep_subst(p, x, r, memo):
    """polynomial p with the base atom x replaced by the leaf r, inside roots and absolute values as well"""
    def atom(a):
        v = memo.get(a)
        if v is None:
            k, q = A.tab[a]
            if a == x: v = r
            elif k == 'sqrt': v = lsqrt(deep_subst(q, x, r, memo))
            elif k == 'abs': v = labs(deep_subst(q, x, r, memo))
            else: v = latom(a)
            memo[a] = v
        return v
    if not any(atom(a) is not latom(a) for a in p.atoms()): return lpoly(p)
    tot = lconst(0)
    for m, c in p.t.items():
        l = lconst(c)
        for a, e in m:
            y = atom(a)
            for _ in range(e): l = lmul(l, y)
        tot = ladd(tot, l)
    return tot

def deep_atoms(p, seen=None):
    seen = set() if seen is None else seen
    for a in p.atoms():
        if a in seen: continue
        seen.add(a)
        k, q = A.tab[a]
        if k in ('sqrt', 'abs'): deep_atoms(q, seen)
    return seen

def eliminate(d, eqs, cell, assume):
    """solve the equalities of the cell for base atoms they are linear in; True if the difference vanishes or the
    cell becomes contradictory"""
    todo = list(eqs); cons = [(lpoly(_sal[v]), s) for v, s in cell]
    try:
        for _ in range(4):
            for e in todo:
                if len(e.t) > 60: continue
                for m, c in e.t.items():
                    if len(m) != 1 or m[0][1] != 1: continue
                    x = m[0][0]
                    if A.tab[x][0] in ('sqrt', 'abs', 'PI', 'INF', 'BIG', 'E2', 'fn', 'ev'): continue
                    rest = Poly({k: v for k, v in e.t.items() if k != m})
                    if x in deep_atoms(rest): continue
                    break
                else: continue
                break
            else: return False
            r = lpoly(pscale(rest, Fraction(-1) / c)); memo = {}
            def go(l):
                n = deep_subst(l.num, x, r, memo)
                for p, k in l.den:
                    q = deep_subst(p, x, r, memo)
                    if not q.num.t: return None
                    for _ in range(k): n = ldiv(n, q)
                return n
            d = go(d)
            if d is None: return False
            if not d.num.t: return True
            new = []; seen = {}
            for l, s in cons:
                l = go(l)
                if l is None: return False
                if l.den and any(known_sign_poly(p) != 1 for p, _ in l.den): continue
                if not l.num.t:
                    if s: return True
                    continue
                c0, mono, q = content(l.num)
                sg = s if c0 > 0 else -s
                ok = True
                for a, k in mono:
                    t = known_sign_poly(patom(a))
                    if t in (1, -1): sg *= t ** k
                    else: ok = False
                if not ok: continue
                if q.is_const():
                    if sg != 1: return True
                    continue
                t = known_sign_poly(q)
                if t is not None and t != sg: return True
                if seen.setdefault(q, sg) != sg: return True
                new.append((lpoly(pscale(q, Fraction(1))), sg))
            cons = new
            todo = [l.num for l, s in cons if s == 0]
            nc = []
            for q, sg in seen.items():
                sign_prim(q); i = _sa.get(q)
                if i is not None: nc.append((i, sg))
            if infeasible(tuple(nc), assume): return True
    except Unsupported: return False
    return False

def rounding(d, f, g):
    """difference no larger than the rounding of folded constants (2^-45 relative, term by term)"""
    if len(d.den) or len(f.den) or len(g.den):
        if not (d.den == f.den == g.den): return False
    for m, c in d.num.t.items():
        r = max(abs(f.num.t.get(m, 0)), abs(g.num.t.get(m, 0)))
        if abs(c) * (1 << 45) > r: return False
    return True

def _subst_poly(p, eqs):
    c, mono, r = content(p)
    if any(r is e for e in eqs): return pconst(0)
    return p
def leafcmp(f, g, cell, ties, assume):
    if f is g: return None
    if isinstance(f, Ptr) or isinstance(g, Ptr):
        return None if infeasible(cell, assume) else Mismatch(cell, f, g)
    d = lsub(f, g)
    if not d.num.t: return None
    if rounding(d, f, g): return None
    sg = {}
    for v, s in cell: sg[_sal[v]] = s
    def signs(q):
        if q in sg: return sg[q]
        k = known_sign_poly(q)
        if k is not None: return k
        c, mono, r = content(q)
        s = 1 if c > 0 else -1
        for a, e in mono:
            pa = patom(a)
            x = sg.get(pa, known_sign_poly(pa))
            if x is None and a in A.nonneg: return None
            if x is None: return None
            s *= x ** e
        if not r.is_const():
            x = sg.get(r, known_sign_poly(r))
            if x is None: return None
            s *= x
        return s
    eqs = [_sal[v] for v, s in cell if s == 0]
    # complete equalities: if x^2+y^2 == 0 then x == 0 and y == 0
    more = []
    for e in eqs:
        if nonneg_poly(e):
            for m in e.t:
                if len(m) == 1: more.append(patom(m[0][0]))
    raw = eqs + more
    eqs = autoreduce(eqs + more)
    d2 = subst_leaf(d, eqs, signs)
    if d2 is not None and not d2.num.t: return None
    if infeasible(cell, assume): return None
    if raw and eliminate(d, raw, cell, assume): return None
    # the reference divides by zero here: it says nothing about this case
    if raw and g.den and any(not _subst_poly(p, raw).t for p, e in g.den): return None
    # abs atoms with undetermined sign: split
    ats = set(d.num.atoms())
    if len(cell) < 40:
        for v, _ in cell: ats |= set(_sal[v].atoms())
    for a in sorted(ats):
        k, q = A.tab[a]
        if k == 'abs' and signs(q) is None and q in (q,):
            i = _sa.get(q)
            if i is None: sign_prim(q); i = _sa.get(q)
            if i is None: continue
            if any(v == i for v, _ in cell): continue
            for s in (-1, 1) + (() if ties == 'ignore' else (0,)):
                m = leafcmp(f, g, cell + ((i, s),), ties, assume)
                if m is not None: return m
            return None
    return Mismatch(cell, f, g)

# ---------------------------------------------------------------- polyhedral emptiness
def nonneg_mono(m): return all(e % 2 == 0 or a in A.nonneg for a, e in m)
def infeasible(cell, assume=()):
    """True only if the conjunction of sign constraints is empty over the convex
    polyhedron obtained by treating monomials as independent variables (plus
    nonnegativity of squares/sqrt/abs and |p| >= +-p).  Exact arithmetic."""
    cons = []  # (dict mono->coef, strict)  meaning  sum >= 0 or > 0
    monos = set()
    def addc(t, strict):
        cons.append((t, strict)); monos.update(t)
    eqs = []
    pos = {}
    cs = {}
    for v, s in cell:
        p = _sal[v]
        cs[p] = s
        if s == 0: addc(dict(p.t), False); addc({m: -c for m, c in p.t.items()}, False)
        else:
            t = {m: c * s for m, c in p.t.items()}
            if A.ints and p.atoms() and all(a in A.ints for a in p.atoms()) and all(c.denominator == 1 for c in t.values()):
                t[()] = t.get((), 0) - 1; addc(t, False)      # an integer > 0 is >= 1
            else: addc(t, True)
    for p, ss in list(ASSUME.items()):
        pass
    for p, strict in assume: addc(dict(p.t), strict)
    if not cons: return False
    # assumption literals over relevant polys
    for p, ss in list(ASSUME.items()):
        if ss == {1}: addc(dict(p.t), True)
        elif ss == {-1}: addc({m: -c for m, c in p.t.items()}, True)
    seen = set()
    # atoms the cell fixes to zero or makes strictly signed
    sg = {}
    for _ in range(3):
        n0 = len(sg)
        for p, s in cs.items():
            t = {m: c for m, c in p.t.items() if not any(sg.get(a) == 0 for a, e in m)}
            if len(t) == 1:
                (m, c), = t.items()
                if len(m) == 1:
                    v = 0 if s == 0 else (s if c > 0 else -s)
                    if m[0][1] % 2 and sg.get(m[0][0], v) != v: return True
                    if m[0][1] % 2 or s == 0: sg[m[0][0]] = v
            elif s == 0 and t and (all(c > 0 and nonneg_mono(m) for m, c in t.items()) or all(c < 0 and nonneg_mono(m) for m, c in t.items())):
                for m in t:
                    if len(m) == 1: sg[m[0][0]] = 0
                    elif not m: return True
        if len(sg) == n0: break
    def enrich():
        for m in list(monos):
            if m in seen or not m: continue
            seen.add(m)
            if any(sg.get(a) == 0 for a, e in m):
                addc({m: Fraction(1)}, False); addc({m: Fraction(-1)}, False)
                continue
            if all(e % 2 == 0 or a in A.nonneg for a, e in m):
                strict = all(a in A.pos or sg.get(a) for a, e in m)
                addc({m: Fraction(1)}, strict)
            elif all(e % 2 == 0 or a in A.nonneg or sg.get(a) for a, e in m):
                f = 1
                for a, e in m:
                    if e % 2 and a not in A.nonneg: f *= sg[a]
                addc({m: Fraction(f)}, all(a in A.pos or sg.get(a) for a, e in m))
            if len(m) == 1 and m[0][1] == 1:
                k, q = A.tab[m[0][0]]
                if k == 'abs':
                    for s in (1, -1):
                        t = {x: c * s for x, c in q.t.items()}
                        t[m] = t.get(m, 0) + 1
                        addc(t, False)
                    sq_ = cs.get(q)
                    if sq_ is not None:
                        t = {x: c * sq_ for x, c in q.t.items()}
                        t[m] = t.get(m, 0) - 1
                        addc(t, False)
    for _ in range(3): enrich()
    # (x +- y)^2 >= 0 for products whose squares occur
    if len(monos) < 200:
        for m in list(monos):
            if len(m) == 2 and m[0][1] == m[1][1] == 1:
                x, y = ((m[0][0], 2),), ((m[1][0], 2),)
                if x in monos and y in monos:
                    for s in (2, -2): addc({x: Fraction(1), y: Fraction(1), m: Fraction(s)}, False)
    if not lp_feasible(cons): return True
    # squares and products of the (short, linear) constraints of the cell
    lin = [(Poly(dict(p.t)), s) for p, s in cs.items() if len(p.t) <= 5 and all(_deg(m) <= 1 for m in p.t)]
    lin += [(patom(a), 1) for p, s in cs.items() for a in p.atoms() if (a in A.pos or sg.get(a) == 1)]
    lin = list(dict.fromkeys(lin))
    if len(lin) < 2 or len(lin) > 14 or not any(_deg(m) >= 2 for m in monos): return False
    for i, (p, s) in enumerate(lin):
        for q, t in lin[i:]:
            if s * t >= 0 or p is not q:
                r = pmul(p, q); f = s * t
                if f: addc({m: c * f for m, c in r.t.items()}, True)
                else:
                    addc(dict(r.t), False); addc({m: -c for m, c in r.t.items()}, False)
    return not lp_feasible(cons)

def lp_feasible(cons):
    """exists x: all cons hold (strict ones > 0)?  The constant monomial () is 1.
    Homogenise: constants scaled by variable h>0 (strict)."""
    # maximise t subject to  a.x - t*strict >= 0, h >= t, t <= 1.   (cone, x free)
    vars_ = sorted({m for t, _ in cons for m in t if m != ()}, key=str)
    # Farkas: infeasible iff exists y>=0 with sum y_i a_i = 0 on every free var, and for the constant col: sum y_i a_i0 <= 0,
    # with sum over strict y_i >0 (or constant sum <0).  Solve that LP exactly: columns are constraints.
    # Treat 'h>0' as strict constraint with a = {():1}.
    C = [(t, s) for t, s in cons] + [({(): Fraction(1)}, True)]
    rows = [()] + vars_
    # find y>=0: for each row r: sum_i y_i a_i[r] = 0 ; sum_{strict} y_i = 1
    Amat = [[Fraction(t.get(r, 0)) for t, s in C] for r in rows]
    Amat.append([Fraction(1 if s else 0) for t, s in C])
    b = [Fraction(0)] * len(rows) + [Fraction(1)]
    return not simplex_feasible(Amat, b)

def simplex_feasible(Am, b):
    """phase-1 simplex (Bland): exists y>=0, Am y = b (b>=0)?"""
    m = len(Am); n = len(Am[0]) if m else 0
    T = [list(Am[i]) + [b[i]] for i in range(m)]
    basis = [n + i for i in range(m)]   # artificial
    # reduced costs for min sum artificials
    z = [-sum(T[i][j] for i in range(m)) for j in range(n + 1)]
    it = 0
    while True:
        it += 1
        if it > 3000: return False if False else None
        e = next((j for j in range(n) if z[j] < 0), None)
        if e is None: break
        best = None; l = None
        for i in range(m):
            if T[i][e] > 0:
                r = T[i][n] / T[i][e]
                if best is None or r < best or (r == best and basis[i] < basis[l]): best = r; l = i
        if l is None: break
        pv = T[l][e]
        T[l] = [x / pv for x in T[l]]
        for i in range(m):
            if i != l and T[i][e]:
                f = T[i][e]; Tl = T[l]
                T[i] = [x - f * y if y else x for x, y in zip(T[i], Tl)]
        if z[e]:
            f = z[e]; z = [x - f * y if y else x for x, y in zip(z, T[l])]
        basis[l] = e
    return z[n] == 0

# ---------------------------------------------------------------- constants
def from_double(x):
    if math.isnan(x): return latom(A.get('NANV', 0, 'nan'))
    if math.isinf(x):
        l = latom(A.get('INF', 0, 'inf')); return l if x > 0 else lneg(l)
    if abs(x) > 1e300:
        l = latom(A.get('BIG', 0, 'DBL_MAX')); return l if x > 0 else lneg(l)
    if x == 0: return lconst(0)
    r = nice(x)
    if r is not None: return lconst(r)
    for mul_, kind in ((math.pi, 'PI'),):
        q = nice(x / mul_, 4e-16 * 4)
        if q is not None and q.denominator <= 5000: return lpoly(Poly({((A.get('PI', 0, 'pi'), 1),): q}))
    y = nice(x * x, 1e-15)
    if y is not None and y.denominator <= 1000 and y.numerator < 1000:
        r = sqrt_poly(pconst(y)); return r if x > 0 else lneg(r)
    return lconst(Fraction(x))
def nice(x, tol=0.0):
    f = Fraction(x)
    if f.denominator <= 1 << 20: return f
    g = f.limit_denominator(2000)
    if g != 0 and abs(float(g) - x) <= max(tol, 2.3e-16) * abs(x): return g
    s = repr(x)
    d = s.split('e')[0].replace('.', '').replace('-', '').lstrip('0')
    if len(d) <= 12: return Fraction(s)
    return None
