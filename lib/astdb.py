"""Facts about the whole library from the type-checked syntax trees of every source file and of all public headers."""
import os, json, hashlib
import common
from common import REPO, BUILD, Broken, run, tool, flags, tree_hash, pmap
def sources():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, 'src')):
        ds.sort(); out += [os.path.join(d, f) for f in sorted(fs) if f.endswith('.cpp')]
    return out
def headers():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, 'include')):
        ds.sort(); out += [os.path.relpath(os.path.join(d, f), os.path.join(REPO, 'include')) for f in sorted(fs) if f.endswith('.h') and not f.endswith('-inl.h')]
    return out
def one(job):
    name, text = job
    t = tool('astfacts'); d = os.path.join(BUILD, 'ast'); os.makedirs(d, exist_ok=True)
    key = hashlib.sha256((name + text + t + tree_hash() + REPO).encode()).hexdigest()[:20]
    out = os.path.join(d, key + '.json')
    if os.path.exists(out): return out
    src = os.path.join(d, key + '.cpp'); open(src, 'w').write(text)
    rc, o, e = run([t, out + '.tmp%d' % os.getpid(), REPO + '/include/fcl,' + REPO + '/src,' + REPO + '/include', src, '--'] + flags(shadowed=False))
    os.unlink(src)
    if rc:
        os.unlink(out + '.tmp%d' % os.getpid())
        return 'ERR ' + name + ': ' + '\n'.join(l for l in e.splitlines() if 'error' in l)[:600]
    os.replace(out + '.tmp%d' % os.getpid(), out); return out
def facts(groups=16):
    """-> (facts of the sources, facts of the headers, [units that do not parse])"""
    tool('astfacts'); tree_hash(); common.shadow(); common.config_include()
    ss = sources(); jobs = []
    for g in range(groups):
        part = ss[g::groups]
        if part: jobs.append(('g%d' % g, ''.join('#include "%s"\n' % p for p in part)))
    jobs.append(('headers', ''.join('#include "%s"\n' % h for h in headers())))
    res = pmap(one, jobs); broken = []
    def load(p):
        return [json.loads(l) for l in open(p)]
    fs, hs = [], []
    redo = []
    for (n, t), p in zip(jobs, res):
        if p.startswith('ERR'):
            redo += [(l, l + '\n') for l in t.splitlines()] if n != 'headers' else []
            if n == 'headers': broken.append(p)
        elif n == 'headers': hs = load(p)
        else: fs += load(p)
    if redo:
        for p in pmap(one, redo):
            if p.startswith('ERR'): broken.append(p)
            else: fs += load(p)
    prune()
    return fs, hs, broken
def prune(keep=120):
    d = os.path.join(BUILD, 'ast')
    f = sorted((os.path.join(d, x) for x in os.listdir(d)), key=os.path.getmtime)
    for x in f[:-keep]:
        try: os.unlink(x)
        except OSError: pass
