"""After the callback asks to stop, no further callback happens in the same query."""
import os, re, e5
from common import *
RECF = r'^bool fcl::detail::dynamic_AABB_tree(_array)?::(self)?([cC]ollision|[dD]istance)Recurse_?<'
CB = '(*)(fcl::CollisionObject<double>*, fcl::CollisionObject<double>*, void*'
def params(dem):
    """top-level parameter strings of a demangled function"""
    i = dem.rfind(')'); d = 0; j = i
    while j >= 0:
        if dem[j] == ')': d += 1
        if dem[j] == '(':
            d -= 1
            if d == 0: break
        j -= 1
    out = []; cur = ''; d = 0
    for c in dem[j + 1:i]:
        if c in '(<': d += 1
        if c in ')>': d -= 1
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    return out + [cur.strip()]
def callbacks(f):
    a = f['args']
    if f['dem'] == f['name']: return [a[-1][0]]
    ps = params(f['dem']); off = len(a) - len(ps)
    return [a[off + k][0] for k, p in enumerate(ps) if CB in p]
def analyse(bc, pipeline):
    """-> {function: (dem, [(site, violation or None)])}, problems"""
    extra = set()
    for rnd in range(4):
        mod = dump([bc] + plain_sources(), entries=['^q_', RECF] + ['^%s$' % re.escape(x) for x in sorted(extra)], pipeline=pipeline, inline_all=True)
        fns = {f['name']: f for f in mod['functions']}
        new = set(); obl = []; unknown = []
        for n, f in sorted(fns.items()):
            fn = e5.Fn(f, mod); fn.retbool = f['ret'] == 'i1'
            cbs = callbacks(f); bad = []
            if not cbs: raise Broken('no callback parameter in ' + f['dem'])
            ss = e5.sites(fn, cbs, bad); unknown += ['%s: %s' % (f['dem'], b) for b in bad]
            for bi, k in ss:
                c = fn.B[bi][k][4]
                if c[0] == '@' and c[1:] not in fns: new.add(c[1:])
            if not ss and (f['ret'] != 'void' or n.startswith('q_')): unknown.append('%s never calls the callback' % f['dem'])
            obl.append((fn, f, ss))
        new -= extra
        if not new: break
        extra |= new
    unknown += ['callback handed to %s, whose body is not available' % mod['decls'].get(x, x) for x in extra if x not in fns]
    out = {}
    for fn, f, ss in obl:
        sset = set(ss); res = []
        for s in ss:
            v = e5.explore(fn, s, sset)
            at = relpath(fn.loc(fn.B[s[0]][s[1]][2]).split('@')[0])
            res.append((at, v and (v[0], relpath(v[1].split('@')[0]))))
        out[f['name']] = (f['dem'], res)
    return out, unknown
def run(r):
    src = os.path.join(VERIF, 'probes', 'c16_stop.cpp')
    bc, pruned = bitcode_pruned(src, extra=['-fno-access-control', '-fno-strict-aliasing', '-I' + os.path.join(VERIF, 'probes')])
    r.broken += ['does not compile against this tree: ' + x for x in pruned]
    res, unknown = analyse(bc, 'O2')
    r.broken += unknown
    # every pipeline yields an equivalent program: one clean result is a proof
    for p in ('lite', 'norm'):
        bad = [n for n, (d, l) in res.items() if any(v for _, v in l)]
        if not bad: break
        other, _ = analyse(bc, p)
        for n in bad:
            if n in other and other[n][1] and not any(v for _, v in other[n][1]): res[n] = other[n]
    n = 0; done = []
    for name, (dem, l) in sorted(res.items()):
        for at, v in l:
            done.append('%s @ %s' % (dem[:120], at))
            if not v: continue
            n += 1
            what = 'another callback is reachable at %s' % v[1] if v[0] == 'again' else 'the function may return false at %s, so its caller goes on' % v[1]
            r.violation('%s@%s' % (re.sub(r'\(.*', '', dem), re.sub(r':.*', '', at)), 'after the callback at %s returned true, %s' % (at, what))
    if len(res) < 42: raise Broken('only %d query functions' % len(res))
    r.cov.update(functions=len(res), obligations=len(done), discharged=len(done) - n, sites=done,
        rule='with the result of one callback fixed to true, no path of the control-flow graph (all loops included) reaches another callback site, and a boolean function returns true',
        explanation='all broadphase managers, every query entry point, everything inlined except recursive functions, which are analysed separately and treated as callback sites of their callers')
