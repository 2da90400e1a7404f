"""C21: no state outside the request, the result and the call itself is written by a query."""
import collections, astdb
from common import REPO
short = lambda s: s.replace(REPO + '/include/fcl/', '').replace(REPO + '/', '')
ENTRY = ('collide', 'distance', 'continuousCollide')
def run(r):
    fs, hs, broken = astdb.facts(); r.broken += broken
    A = fs + hs
    fn = {}; refs = collections.defaultdict(set); S = {}; W = []; F = []; mut = set(); cast = set(); nw = 0
    for f in A:
        k = f['k']
        if k == 'fn': fn[f['fid']] = f['name']
        elif k == 'ref': refs[f['from']].add(f['to'])
        elif k == 'static': S.setdefault(f['id'], f)
        elif k == 'write': W.append(f)
        elif k == 'flow': F.append(f)
        elif k == 'cast' and f['geo']: cast.add((f['at'], f['from'], f['to'], f['in']))
    entry = [i for i, n in fn.items() if n.rsplit('::', 1)[-1] in ENTRY]
    pred = {i: None for i in entry}; st = list(entry)
    while st:
        x = st.pop()
        for y in refs[x]:
            if y not in pred: pred[y] = x; st.append(y)
    def path(x):
        p = []
        while x is not None: p.append(fn.get(x, x.rsplit(':', 1)[-1])); x = pred.get(x)
        return ' <- '.join(p[:8])
    r.cov.update(functions=len(fn), reachable=len(pred), entries=len(entry), statics=len(S), obligations=0, discharged=0, samples=[])
    def need(c, key, msg):
        r.cov['obligations'] += 1
        if c: r.cov['discharged'] += 1
        else: r.violation(key, msg)
    # (a) static storage: what a query reaches is never written after its initialisation
    edges = collections.defaultdict(list); wvia = collections.defaultdict(list)
    for f in F:
        for v in f['via']: edges[v].append(f)
    for f in W:
        for v in f['via']: wvia[v].append(f)
    for i, s in sorted(S.items()):
        if s['const']: 
            if s['init'] and s['fn'] in pred: need(False, 'init/' + short(i).split(':')[0] + ':' + s['name'], '%s: function-local static %s keeps a value computed from the first call; reached by %s' % (short(s['at']), s['name'], path(s['fn'])))
            continue
        if s['init'] and s['fn'] in pred: need(False, 'init/' + short(i).split(':')[0] + ':' + s['name'], '%s: function-local static %s keeps a value computed from the first call; reached by %s' % (short(s['at']), s['name'], path(s['fn'])))
        hits = [f for f in W if f['static'] and f['root'] == i and f['fn'] in pred]
        seen = set(); todo = [f['to'] for f in F if f['static'] and f['root'] == i]
        while todo:
            d = todo.pop()
            if d in seen: continue
            seen.add(d)
            hits += [f for f in wvia[d] if f['fn'] in pred]
            todo += [f['to'] for f in edges[d]]
        need(not hits, 'static/' + short(i).split(':')[0] + ':' + s['name'], '%s: %s has static storage and is written by a query at %s; reached by %s' % (short(s['at']), s['name'], ', '.join(sorted({short(f['at']) for f in hits}))[:200], path(hits[0]['fn']) if hits else ''))
    # (b) mutable members of geometries and objects
    n = 0
    for f in W:
        if f['mut'] and (f['fn'] in pred): mut.add((f['at'], f['mut'], f['fn']))
    for at, m, x in sorted(mut): need(False, 'mutable/' + m.rsplit(':', 1)[-1] + '@' + x.rsplit(':', 1)[-1], '%s: mutable member %s of a const geometry or object is written; reached by %s' % (short(at), short(m), path(x)))
    r.cov['obligations'] += 1; r.cov['discharged'] += not mut
    # (c) const is not cast away from geometries
    for at, a, b, x in sorted(cast): need(False, 'cast/' + x.split('<')[0], '%s: cast from %s to %s drops const from a geometry in %s' % (short(at), a[:90], b[:90], x[:90]))
    r.cov['obligations'] += 1; r.cov['discharged'] += not cast
    # (d) what const geometries point to is not written
    first = {}
    for f in F:
        if f['cgeo'] and f['to'] not in first: first[f['to']] = (f, None)
    todo = list(first)
    while todo:
        d = todo.pop()
        for f in edges[d]:
            if f['to'] not in first: first[f['to']] = (f, d); todo.append(f['to'])
    r.cov['pointers into const geometries'] = len(first)
    for d in sorted(first):
        h = [f for f in wvia[d] if f['fn'] in pred]
        need(not h, 'storage/' + d.rsplit(':', 1)[-1], '%s: storage of a const geometry, reached through %s (taken at %s), is written at %s' % (short(d), d.rsplit(':', 1)[-1], short(first[d][0]['at']), ', '.join(sorted({short(f['at']) for f in h}))[:300]))
    dir_ = sorted({(f['at'], f['fn']) for f in W if f['cgeo'] and f['fn'] in pred})
    for at, x in dir_: need(False, 'direct/' + x.rsplit(':', 1)[-1], '%s: storage of a const geometry is written directly in %s' % (short(at), x.rsplit(':', 1)[-1]))
    r.cov['obligations'] += 1; r.cov['discharged'] += not dir_
    r.cov['writes examined'] = len(W); r.cov['pointer copies examined'] = len(F)
    r.cov['samples'] = ['%s %s' % (short(s['at']), s['name']) for s in S.values() if not s['const']]
    r.cov['explanation'] = 'functions reachable (over references, overriders included) from the collide/distance/continuousCollide functions: no write to static storage or through pointers derived from it, no call-dependent function-local static, no write to mutable members of const geometries, no const-dropping cast to a geometry, no write through a pointer taken from a const geometry'
    if len(entry) < 20 or len(pred) < 500: r.broken.append('only %d functions reachable from %d entries' % (len(pred), len(entry)))
