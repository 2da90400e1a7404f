"""C28: Morton codes, by bit provenance (every result bit as the set of argument bits it is made of)."""
import os, e4
from common import VERIF, REPO, bitcode, dump, Broken
P = os.path.join(VERIF, 'probes', 'c28_morton.cpp')
TOP = None
ZERO = frozenset()
def const(n, w): return [ZERO if not (n >> i) & 1 else 1 for i in range(w)]
def b_or(a, b):
    if a == 1 or b == 1: return 1
    if a is TOP or b is TOP: return TOP
    return a | b
def b_and(a, b):
    if a == ZERO or b == ZERO: return ZERO
    if a == 1: return b
    if b == 1: return a
    return a if a == b else TOP
def b_xor(a, b):
    if a == ZERO: return b
    if b == ZERO: return a
    return ZERO if a == b and a is not TOP and (a == 1 or len(a) == 1) else TOP
def add(x, y):
    out = []; carry = False
    for a, b in zip(x, y):
        if carry: out.append(TOP); continue
        if a == ZERO: out.append(b)
        elif b == ZERO: out.append(a)
        else: out.append(b_xor(a, b)); carry = True
    return out
def shl(x, k): return ([ZERO] * k + x)[:len(x)]
def provenance(fn, widths):
    if len(fn['blocks']) != 1: raise Broken('%s: branches left after normalisation' % fn['name'])
    v = {}
    for k, (a, w) in enumerate(zip(fn['args'], widths)): v[a[0]] = [frozenset([(k, i)]) if i < w else ZERO for i in range(32)]
    b = fn['blocks'][0]; insts = b['insts'] if isinstance(b, dict) else b
    for I in insts:
        op, r, ty = I[0], I[1], I[3]
        if op == 'ret': return v[I[4]]
        if not ty.startswith('i'): raise Broken('%s: %s' % (fn['name'], op))
        w = int(ty[1:])
        def val(o):
            if o in v: return v[o]
            if o[0] == 'i': return const(int(o[1:]) % (1 << w), w)
            raise Broken('operand ' + o)
        isc = lambda o: o[0] == 'i' and o not in v
        if op == 'and': v[r] = [b_and(a, b) for a, b in zip(val(I[4]), val(I[5]))]
        elif op in ('or',): v[r] = [b_or(a, b) for a, b in zip(val(I[4]), val(I[5]))]
        elif op == 'xor': v[r] = [b_xor(a, b) for a, b in zip(val(I[4]), val(I[5]))]
        elif op == 'add': v[r] = add(val(I[4]), val(I[5]))
        elif op == 'shl' and isc(I[5]): v[r] = shl(val(I[4]), int(I[5][1:]))
        elif op == 'lshr' and isc(I[5]): k = int(I[5][1:]); v[r] = val(I[4])[k:] + [ZERO] * k
        elif op == 'mul' and (isc(I[5]) or isc(I[4])):
            x, c = (I[4], I[5]) if isc(I[5]) else (I[5], I[4]); c = int(c[1:]) % (1 << w); acc = [ZERO] * w
            for k in range(w):
                if (c >> k) & 1: acc = add(acc, shl(val(x), k))
            v[r] = acc
        elif op == 'zext': v[r] = val(I[4]) + [ZERO] * (w - len(val(I[4])))
        elif op == 'trunc': v[r] = val(I[4])[:w]
        else: raise Broken('%s: instruction %s' % (fn['name'], op))
    raise Broken('no return')
def show(b): return 'unknown' if b is TOP else '1' if b == 1 else '{' + ', '.join('%s[%d]' % ('xyz'[k], i) for k, i in sorted(b)) + '}'
def run(r):
    r.cov.update(obligations=0, discharged=0, samples=[])
    bc = [bitcode(P, extra=['-DCHK=1', '-fno-access-control', '-I' + os.path.join(VERIF, 'probes')]), bitcode(os.path.join(REPO, 'src/broadphase/detail/morton.cpp'))]
    m = dump(bc, entries=['^bits_'], pipeline='norm', inline_all=True)
    fns = {f['name']: f for f in m['functions']}
    for name, what, n in (('bits_code30', 'morton_code', 10), ('bits_code60', 'morton_code60', 20)):
        try: got = provenance(fns[name], [n] * 3)
        except (Broken, KeyError) as e: r.broken.append('%s: %s' % (what, e)); continue
        bad = []
        for i in range(64):
            want = frozenset([(i % 3, i // 3)]) if i < 3 * n else ZERO
            g = got[i] if i < len(got) else ZERO
            r.cov['obligations'] += 1
            if g == want: r.cov['discharged'] += 1
            elif g is TOP: r.broken.append('%s: provenance of result bit %d not determined' % (what, i))
            else: bad.append('result bit %d is made of %s, expected %s' % (i, show(g), show(want)))
        if bad: r.violation(what, 'src/broadphase/detail/morton.cpp: %s: %s' % (what, '; '.join(bad[:4])))
        r.cov['samples'].append({'function': what, 'instructions': sum(len(b['insts'] if isinstance(b, dict) else b) for b in fns[name]['blocks']), 'bits': 64})
    e4.report_file(r, P, min_pairs=5, defs=['-DCHK=2'], events=False)
    r.cov['explanation'] = ('every result bit of the two spreading functions is the one argument bit it has to be (bit provenance over the IR, all arguments); the functors quantise each coordinate '
        'relative to its own axis of the box and pass x, y, z in order; the bit-set functor is the binary expansion of the relative coordinates')
