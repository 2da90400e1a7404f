"""C17: registration bookkeeping of the broadphase managers, from the operations every method performs on every member."""
import os, re, collections, astdb, e4
from common import VERIF, REPO
FILL = {'push_back', 'emplace_back', 'insert', 'emplace', 'push_front', 'insertLeaf', 'init', '[]', '=', 'assign', 'resize'}
SHRINK = {'pass', 'erase', 'remove', 'remove_if', 'pop_back', 'pop_front', 'clear', 'deleteNode', 'removeLeaf', 'resize', 'assign', '=', 'swap'}
GIVE = FILL | {'pass'}
RESET = {'pass', 'clear', 'assign', 'swap', '=', 'delete', 'reset'}
short = lambda s: s.replace(REPO + '/include/fcl/', '').replace(REPO + '/', '')
def run(r):
    fs, hs, broken = astdb.facts()
    r.broken += broken
    ops = collections.defaultdict(set); where = {}; types = {}; meth = collections.defaultdict(dict); refs = collections.defaultdict(set)
    for f in fs + hs:
        if f['k'] == 'memop' and '/broadphase/' in f['at']:
            ops[(f['cls'], f['name'])].add((f['op'], f['ix'], f['fn'])); types[(f['cls'], f['name'])] = f['type']; where[(f['cls'], f['name'], f['fn'], f['op'])] = f['at']
        elif f['k'] == 'fn' and '/broadphase/' in f['at']:
            m = re.match(r'fcl::(\w+)(?:<.*>)?::(~?\w+)$', f['name'])
            if m: meth[m.group(1)].setdefault(m.group(2), set()).add(f['fid'])
        elif f['k'] == 'ref': refs[f['from']].add(f['to'])
    managers = [c for c in meth if c != 'BroadPhaseCollisionManager' and {'registerObject', 'unregisterObject', 'clear'} <= set(meth[c]) and any(k[0] == c for k in ops)]
    ids = {c: {i for v in meth[c].values() for i in v} for c in meth}
    def closure(c, names):
        st = [i for n in names for i in meth[c].get(n, ())]; out = set()
        while st:
            x = st.pop()
            if x in out: continue
            out.add(x); st += [y for y in refs[x] if y in ids[c]]
        return out
    def done(c, f, kinds, fns): return [(o, ix, fn) for o, ix, fn in ops[(c, f)] if (o in kinds or (o.startswith('=') and '=' in kinds)) and fn in fns]
    n = ok = 0
    r.cov.update(managers=sorted(managers), obligations=0, discharged=0, samples=[])
    def need(cond, c, key, msg):
        r.cov['obligations'] += 1
        if cond: r.cov['discharged'] += 1
        else: r.violation('%s/%s' % (c, key), msg)
    for c in sorted(managers):
        F = [f for k, f in ops if k == c]
        scalar = lambda f: types[(c, f)] in ('bool', 'int', 'unsigned long', 'unsigned int', 'double', 'size_t') or 'int (*' in types[(c, f)]
        ctor = {i for n, v in meth[c].items() if n == c for i in v}
        every = ids[c] - ctor
        cl, un = closure(c, ['clear']), closure(c, ['unregisterObject'])
        reg, upd, setup = closure(c, ['registerObject', 'registerObjects', 'setup']), closure(c, ['update']), closure(c, ['setup'])
        reg1 = closure(c, ['registerObject'])
        src = short(sorted(meth[c]['clear'])[0]).rsplit(':', 3)[0]
        hold = []
        for f in sorted(F):
            if scalar(f): continue
            fill = done(c, f, FILL, every - cl)
            if not fill: continue
            hold.append(f)
            # R1: clear() empties it
            e = done(c, f, RESET, cl); m = re.search(r'\[(\d+)\]$', types[(c, f)]); size = int(m.group(1)) if m else 0
            idx = {ix for o, ix, fn in e}
            need(e and (not size or '*' in idx or {str(k) for k in range(size)} <= idx), c, 'clear:' + f,
                 '%s: %s::clear() leaves %s%s filled (filled in %s)' % (src, c, f, '' if not e else ' (elements %s only)' % sorted(idx), ', '.join(sorted({short(x[2]).rsplit(':', 3)[-1] for x in fill})[:4])))
            # R2: what registering or setting up fills, unregistering shrinks
            if done(c, f, FILL, reg):
                e = done(c, f, SHRINK, un); idx = {ix for o, ix, fn in e}
                need(e and (not size or '*' in idx or {str(k) for k in range(size)} <= idx), c, 'unregister:' + f, '%s: %s::unregisterObject() leaves the object in %s' % (src, c, f))
            # R3: what update() fills, registerObject() fills too, unless setting up does
            if done(c, f, FILL, upd) and not done(c, f, FILL, setup):
                need(done(c, f, GIVE, reg1), c, 'register:' + f, '%s: %s::registerObject() does not enter the object in %s, update() does' % (src, c, f))
            if done(c, f, FILL, closure(c, ['registerObjects'])) and meth[c].get('registerObjects') and not done(c, f, FILL, setup):
                need(done(c, f, GIVE, reg1), c, 'registerone:' + f, '%s: %s::registerObject() does not enter the object in %s, registerObjects() does' % (src, c, f))
                need(done(c, f, GIVE, closure(c, ['registerObjects']) - reg1), c, 'registerall:' + f, '%s: %s::registerObjects() does not enter objects in %s' % (src, c, f)) if not (closure(c, ['registerObjects']) & meth[c]['registerObject']) else None
        # R4: the object to remove is found by identity or by what was recorded for it, not by its present box
        own = un - closure(c, ['setup', 'update'])
        need(not any('getAABB' in t for x in own for t in refs[x]), c, 'lookup', '%s: %s::unregisterObject() looks the object up by its present box (CollisionObject::getAABB), which need not be the one it was registered with' % (src, c))
        # R5: registering invalidates what setup() prepares
        if any(f == 'setup_' for f in F) and done(c, 'setup_', {'='}, setup) and not any(done(c, f, GIVE, reg1) and types[(c, f)].find('Tree') >= 0 for f in hold):
            need(any(o == '=false' and fn in reg1 for o, ix, fn in ops[(c, 'setup_')]), c, 'setup_', '%s: %s::registerObject() does not reset setup_' % (src, c))
        r.cov['samples'].append({'manager': c, 'members that hold objects': hold, 'methods': len(meth[c])})
    # R6: no iterator is used after its element was erased
    er = {(f['at'], f['var']) for f in fs + hs if f['k'] == 'erase'}; bad = {(f['at'], f['var'], f['in']) for f in fs + hs if f['k'] == 'aftererase'}
    for at, v, fn in sorted(bad): r.violation('erase/%s' % fn, '%s: %s: iterator %s is used after the element it denotes was erased' % (short(at), fn, v))
    r.cov['obligations'] += len(er); r.cov['discharged'] += len(er) - len(bad)
    if len(managers) < 6: r.broken.append('only %d managers recognised' % len(managers))
    e4.report_file(r, os.path.join(VERIF, 'probes', 'c17_size.cpp'), min_pairs=4, events=False)
    r.cov['explanation'] = ('per manager: every member some method fills with objects is emptied by clear(); every member that registering or setting up fills is shrunk by unregisterObject(); update() fills nothing registerObject() does not; '
        'unregisterObject() does not consult the present box; registering resets the set-up flag; iterators are not used after erase; size() and empty() as functions of the containers')
