"""Shared plumbing: building the front end, compiling /repo sources to bitcode,
reporting, evidence."""
import os, sys, json, signal, subprocess, hashlib, time, re, tempfile, shutil, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_th = None
REPO = os.environ.get('FCL_REPO', '/repo')
BUILD = os.path.join(VERIF, '_work')
LLVM = '/usr/lib/llvm-18'

class TooLong(BaseException):
    """one obligation ran out of its time"""
class limit:
    """with limit(s): ...   raises TooLong after s seconds, or when the whole run nears its own limit"""
    T0 = time.time(); TOTAL = 800
    def __init__(self, s): self.s = s
    def __enter__(self):
        s = min(self.s, self.TOTAL - (time.time() - self.T0))
        if s < 1: raise TooLong()
        def h(*a): raise TooLong()
        signal.signal(signal.SIGALRM, h); signal.setitimer(signal.ITIMER_REAL, s)
    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)

class Broken(Exception):
    """the analysis itself cannot give an answer"""

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')

def tool(name='irdump'):
    src = os.path.join(VERIF, 'tools', name + '.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:12]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, '%s-%s' % (name, h))
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        libs = ['-lLLVM-18'] if name == 'irdump' else ['-l:libclang-cpp.so.18.1', '-lLLVM-18']
        rc, o, e = run(['clang++', '-std=c++17', '-O1', '-fno-rtti', '-I' + LLVM + '/include', '-D__STDC_CONSTANT_MACROS',
                        '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp, '-L' + LLVM + '/lib'] + libs)
        if rc: raise Broken('cannot build %s: %s' % (name, e[-2000:]))
        os.replace(tmp, out)
    return out

def config_include():
    """directory holding fcl/config.h and fcl/export.h as the build would generate them"""
    d = os.path.join(BUILD, 'include', 'fcl')
    os.makedirs(d, exist_ok=True)
    ver = '0.7.0'
    txt = open(os.path.join(REPO, 'include', 'fcl', 'config.h.in')).read() if os.path.exists(os.path.join(REPO, 'include', 'fcl', 'config.h.in')) else ''
    def sub(m):
        k = m.group(1)
        return {'FCL_MAJOR_VERSION': '0', 'FCL_MINOR_VERSION': '7', 'FCL_PATCH_VERSION': '0', 'FCL_VERSION': ver, 'OCTOMAP_MAJOR_VERSION': '1', 'OCTOMAP_MINOR_VERSION': '9', 'OCTOMAP_PATCH_VERSION': '7'}.get(k, '0')
    txt = re.sub(r'@(\w+)@', sub, txt)
    def cm(m):
        k = m.group(1)
        return '#define %s 1' % k if k == 'FCL_HAVE_OCTOMAP' else ('#define %s 0' % k)
    txt = re.sub(r'#cmakedefine01 (\w+)', cm, txt)
    def cm2(m):
        k = m.group(1)
        return '#define %s' % k if k in ('FCL_HAVE_OCTOMAP',) else '/* #undef %s */' % k
    txt = re.sub(r'#cmakedefine (\w+).*', cm2, txt)
    _put(os.path.join(d, 'config.h'), txt)
    _put(os.path.join(d, 'export.h'), '#pragma once\n#define FCL_EXPORT\n#define FCL_NO_EXPORT\n#define FCL_DEPRECATED\n#define FCL_DEPRECATED_EXPORT\n#define FCL_DEPRECATED_NO_EXPORT\n')
    return os.path.join(BUILD, 'include')
def _put(p, t):
    if os.path.exists(p) and open(p).read() == t: return
    tmp = p + '.%d' % os.getpid()
    open(tmp, 'w').write(t); os.replace(tmp, p)

def shadow():
    """copy of /repo/include with the `extern template` declarations blanked, so that
    every template body is visible to the analysis (line numbers are kept)"""
    global _th
    if _th is None: _th = tree_hash()
    out = os.path.join(BUILD, 'shadow-' + _th)
    if not os.path.isdir(out):
        tmp = out + '.%d.tmp' % os.getpid()
        src = os.path.join(REPO, 'include')
        for d, ds, fs in os.walk(src):
            o = os.path.join(tmp, os.path.relpath(d, src)); os.makedirs(o, exist_ok=True)
            for f in fs:
                if not f.endswith('.h'): continue
                t = open(os.path.join(d, f), encoding='utf8', errors='replace').read()
                t = re.sub(r'^[ \t]*extern[ \t]+template\b[^;]*;', lambda m: '\n' * m.group(0).count('\n'), t, flags=re.M)
                open(os.path.join(o, f), 'w', encoding='utf8').write(t)
        try: os.rename(tmp, out)
        except OSError: shutil.rmtree(tmp, ignore_errors=True)
        for x in os.listdir(BUILD):
            if x.startswith('shadow-') and x != 'shadow-' + _th and '.tmp' not in x and len([y for y in os.listdir(BUILD) if y.startswith('shadow-')]) > 6:
                shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
    return out

def flags(extra=(), shadowed=True):
    return ['-std=c++14', '-I' + (shadow() if shadowed else os.path.join(REPO, 'include')), '-I' + config_include(), '-I' + os.path.join(REPO, 'src'), '-isystem', '/usr/include/eigen3',
            '-DNDEBUG', '-DEIGEN_DONT_VECTORIZE', '-ffp-contract=off', '-fno-math-errno', '-w'] + list(extra)

def tree_hash():
    """hash of every source file a check may read (cache key only)"""
    h = hashlib.sha256()
    for top in ('include', 'src'):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]
def bitcode(src, extra=(), opt='-O2', g='-g1', shadowed=True):
    """compile src (absolute path) to bitcode; cached by content of the whole tree"""
    global _th
    if _th is None: _th = tree_hash()
    fl = flags(extra, shadowed)
    key = hashlib.sha256(('|'.join(fl) + opt + g + src + _th).encode() + open(src, 'rb').read()).hexdigest()[:20]
    d = os.path.join(BUILD, 'bc'); os.makedirs(d, exist_ok=True)
    out = os.path.join(d, key + '.bc')
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        rc, o, e = run(['clang++', opt, '-Xclang', '-disable-llvm-passes', g, '-c', '-emit-llvm', src, '-o', tmp] + fl)
        if rc: raise Broken('does not compile: %s\n%s' % (src, e[-3000:]))
        os.replace(tmp, out)
    return out

def blocks(txt):
    """top-level blocks of a probe file: (first, last) line numbers; a block starts at a line whose
    first character is not a space, unless the previous line ends in a backslash"""
    ls = txt.split('\n'); out = []
    for i, l in enumerate(ls):
        if l[:1] in ('', ' ', '\t', '}') or (i and ls[i - 1].endswith('\\')):
            if out: out[-1][1] = i; continue
        out.append([i, i])
    return out
def bitcode_pruned(src, extra=(), **kw):
    """bitcode of a probe file; a probe that does not compile against the current tree (a renamed or
    re-typed internal function, say) is left out and reported as undecided, the others are still analysed.
    -> (bitcode, [text of what was left out])"""
    try: return bitcode(src, extra=extra, **kw), []
    except Broken as e: first = e
    txt = open(src).read(); ls = txt.split('\n'); out = []
    d = os.path.join(BUILD, 'pruned'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, hashlib.sha256((src + '|'.join(extra)).encode()).hexdigest()[:10] + '-' + os.path.basename(src))
    for it in range(8):
        open(p, 'w').write('\n'.join(ls))
        rc, o, e = run(['clang++', '-fsyntax-only', '-ferror-limit=0', '-fno-caret-diagnostics', p] + flags(list(extra) + ['-I' + os.path.dirname(src)]))
        if not rc: return bitcode(p, extra=list(extra) + ['-I' + os.path.dirname(src)], **kw), out
        bl = blocks('\n'.join(ls)); hit = set()
        for m in re.finditer(re.escape(p) + r':(\d+):', e):
            n = int(m.group(1)) - 1
            for a, b in bl:
                if a <= n <= b and not ls[a].startswith(('#include', 'namespace')): hit.add((a, b))
        if not hit: break
        prob = {h for h in hit if re.match(r'PROBE|[A-Z]+\(|static inline|template', ls[h[0]])}
        for a, b in (prob or hit):
            if not ls[a].startswith('#'): out.append(ls[a][:60])
            for i in range(a, b + 1): ls[i] = ''
    raise first

def plain_sources():
    """bitcode of the library's non-template sources (linked in so that their bodies are visible)"""
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, 'src')):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith('.cpp') and 'profiler' not in f and 'time.cpp' != f and not re.search(r'^\s*template\b', open(p).read(), re.M): out.append(p)
    return [bitcode(p, extra=['-fno-strict-aliasing', '-fno-access-control']) for p in sorted(out)]

def prune_cache(keep=400):
    d = os.path.join(BUILD, 'bc')
    try: fs = sorted((os.path.getmtime(os.path.join(d, f)), f) for f in os.listdir(d))
    except OSError: return
    for _, f in fs[:-keep]:
        try: os.unlink(os.path.join(d, f))
        except OSError: pass

def dump(bcs, entries=(), noinline=(), drop=(), pure=(), pipeline='O2', inline_all=False, globals_=False, extra=()):
    if isinstance(bcs, str): bcs = [bcs]
    fd, out = tempfile.mkstemp(suffix='.json'); os.close(fd)
    cmd = [tool()] + list(bcs) + ['-o', out, '--pipeline=' + pipeline]
    for e in entries: cmd.append('--entry=' + e)
    for e in noinline: cmd.append('--noinline=' + e)
    for e in drop: cmd.append('--drop=' + e)
    for e in pure: cmd.append('--pure=' + e)
    if inline_all: cmd.append('--inline-all')
    if globals_: cmd.append('--globals')
    cmd += ['--unroll-threshold=1000000', '--unroll-full-max-count=64', '--unroll-max-iteration-count-to-analyze=64', '--unroll-runtime=false', '--unroll-allow-partial=false', '--unroll-allow-peeling=false', '--disable-vector-combine', '--vectorize-slp=false', '--vectorize-loops=false']
    cmd += list(extra)
    try:
        rc, o, e = run(cmd)
        if rc: raise Broken('irdump failed (%d): %s' % (rc, e[-2000:]))
        return json.load(open(out))
    finally:
        os.unlink(out)

def pmap(fn, items, n=8):
    with cf.ThreadPoolExecutor(n) as ex: return list(ex.map(fn, items))

def relpath(p):
    p = re.sub(r'^.*_work/shadow-\w+/', 'include/', p)
    for pre in (REPO + '/', '/repo/'):
        if p.startswith(pre): return p[len(pre):]
    return p

# ---------------------------------------------------------------- reporting
class Report:
    def __init__(self, prop, level='other'):
        self.prop = prop; self.level = level
        self.t0 = time.time()
        self.viol = []      # (key, text)
        self.broken = []    # parts that could not be analysed
        self.cov = {}
        self.assume = []
        self.known = {}
        kf = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(kf):
            for e in json.load(open(kf)).get('findings', []):
                if e['property'] == prop and e.get('status') == 'known': self.known[e['key']] = e
    def violation(self, key, text):
        self.viol.append((key, text))
    def finish(self):
        tier = os.environ.get('VERIF_TIER', 'quick')
        if tier not in ('quick', 'thorough'): tier = 'quick'
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        new = [(k, t) for k, t in self.viol if k not in self.known]
        old = [(k, t) for k, t in self.viol if k in self.known]
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = dict(self.cov)
        cov['undecided'] = [b[:600] for b in self.broken]
        cov['findings'] = [{'construct': k, 'detail': t[:1500]} for k, t in self.viol]
        ev = {'property': self.prop, 'tier': tier, 'seed': seed, 'level': self.level, 'coverage': cov, 'assumptions': self.assume,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1)
        for k in sorted({k for k, _ in old}):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, self.known[k].get('what', k)))
        if new:
            rd = os.path.join(VERIF, '_work', 'replay'); os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.prop + '.txt')
            with open(rp, 'w') as f:
                for k, t in new: f.write('%s\n    %s\n\n' % (k, t))
            for k, t in new[:20]: print('  %s: %s' % (k, t[:600]))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        if self.broken:
            if not cov.get('discharged'): raise Broken('; '.join(self.broken))
            for b in self.broken: print('UNDECIDED property=%s %s' % (self.prop, b[:400]))
        return 0

def main(prop, fn, level='other'):
    r = Report(prop, level)
    try:
        fn(r)
        rc = r.finish()
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s: %s' % (prop, e)); rc = 2
    except Exception as e:
        import traceback; traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s: internal error %r' % (prop, e)); rc = 3
    prune_cache()
    sys.stdout.flush()
    sys.exit(rc)

# ---------------------------------------------------------------- parallel map over forked workers
_pm = {}
def _pmone(i):
    try: return (0, _pm['f'](_pm['x'][i]))
    except Broken as e: return (1, str(e))
def pmap(f, xs):
    """[f(x) for x in xs], in forked workers; f's result must pickle"""
    xs = list(xs)
    n = min(len(xs), os.cpu_count() or 1, 8)
    if n <= 1 or os.environ.get('E3_SERIAL'): return [f(x) for x in xs]
    import multiprocessing as mp, gc
    _pm.update(f=f, x=xs)
    gc.collect(); gc.freeze()
    with mp.get_context('fork').Pool(n) as pool:
        res = pool.map(_pmone, range(len(xs)), chunksize=1)
    for k, v in res:
        if k: raise Broken(v)
    return [v for k, v in res]
