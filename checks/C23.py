"""C23: every instantiation promised in the headers is made, and every function the public headers declare is defined."""
import re, collections, astdb
from common import REPO
short = lambda s: s.replace(REPO + '/include/fcl/', '').replace(REPO + '/', '')
def run(r):
    fs, hs, broken = astdb.facts(); r.broken += broken
    prom = {f['usr']: f for f in hs if f['k'] == 'inst' and not f['def']}
    prov = collections.defaultdict(list)
    for f in fs + hs:
        if f['k'] == 'inst' and f['def']: prov[f['usr']].append(f)
    r.cov.update(obligations=0, discharged=0, samples=[])
    def need(c, key, msg):
        r.cov['obligations'] += 1
        if c: r.cov['discharged'] += 1
        else: r.violation(key, msg)
    for u, f in sorted(prom.items(), key=lambda x: x[1]['at']):
        need(u in prov, 'promise/' + f['name'], '%s: %s is declared "extern template" but no source file instantiates it for these arguments: programs using it do not link' % (short(f['at']), f['name']))
        if u in prov: need(any(x['body'] for x in prov[u]), 'body/' + f['name'], '%s: %s is instantiated where its definition is not visible, so nothing is emitted' % (short(prov[u][0]['at']), f['name']))
    # members of the provided class templates, and plain functions
    cls = {re.sub(r'<.*', '', f['name']) for f in prom.values() if '(' not in f['name']}
    fn = collections.defaultdict(list)
    for f in fs + hs:
        if f['k'] == 'fn': fn[f['id']].append(f)
    hdr = {f['id'] for f in hs if f['k'] == 'fn'}
    nm = nf = 0
    for i in sorted(hdr):
        l = fn[i]; f = l[0]
        if any(x['friend'] for x in l) or '/include/' not in f['at']: continue
        name = f['name']; owner = name.rsplit('::', 1)[0]; bare = re.sub(r'<.*?>(?=::|$)', '', owner)
        isdef = any(x['def'] for x in l)
        if f['tmpl']:
            if bare not in cls or f['priv'] or '<' in owner: continue
            nm += 1; need(isdef, 'member/%s/%s' % (name, i), '%s: %s, a member of a class the library provides, has no definition' % (short(f['at']), name))
        else:
            if f['priv'] or not name.startswith('fcl::') or '<' in owner: continue
            nf += 1; need(isdef, 'function/%s/%s' % (name, i), '%s: %s is declared in a public header and defined nowhere' % (short(f['at']), name))
    r.cov.update(promised=len(prom), provided=len(prov), members=nm, functions=nf)
    r.cov['samples'] = [f['name'] + ' @ ' + short(f['at']) for f in list(prom.values())[:6]]
    r.cov['explanation'] = 'explicit instantiation declarations of all public headers matched, by the unique symbol of the specialisation, with the explicit instantiation definitions of all sources; members of the provided classes and non-template functions have definitions'
    if len(prom) < 100: r.broken.append('only %d promises recognised' % len(prom))
