#!/usr/bin/env python3
"""Validate planted bugs in a scratch copy: python3 gen/seed.py [--checks C06,C07] ID...
Builds the patched copy, runs the stable tests and the demo there, then the check of the
property (and any extra checks) with FCL_REPO pointing at the copy."""
import sys, os, subprocess, json, re, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = os.environ.get('SCR', '/tmp/scr'); R = SCR + '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def sync():
    os.makedirs(R, exist_ok=True)
    sh('git -C /repo archive HEAD | tar x --skip-old-files -C %s' % R) if not os.path.exists(R + '/CMakeLists.txt') else None
    t = SCR + '/t'; shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
    sh('git -C /repo archive HEAD | tar x -C %s' % t)
    o = sh('rsync -rc --delete --exclude=_build %s/ %s/' % (t, R))
    if o.returncode:
        for d, _, fs in os.walk(t):
            for f in fs:
                p = os.path.join(d, f); q = os.path.join(R, os.path.relpath(p, t))
                if not os.path.exists(q) or open(p, 'rb').read() != open(q, 'rb').read():
                    os.makedirs(os.path.dirname(q), exist_ok=True); shutil.copyfile(p, q)
    shutil.rmtree(t)
def build():
    s = open('/opt/vp/build.sh').read().replace('/repo', R)
    open(SCR + '/build.sh', 'w').write(s)
    return sh('bash %s/build.sh' % SCR)
def tests():
    s = open('/opt/vp/runtests.py').read().replace('/repo', R); open(SCR + '/runtests.py', 'w').write(s)
    sh('python3 %s/runtests.py %s/res.txt' % (SCR, SCR)); sh('python3 /opt/vp/results.py %s/out.json lines:%s/res.txt' % (SCR, SCR))
    b = json.load(open('/opt/vp/BASELINE.json'))['stable']; t = json.load(open(SCR + '/out.json'))
    return [x for x in b if x not in t['passed']]
def main():
    a = sys.argv[1:]; extra = None; fast = False
    if a[0] == '--fast': fast = True; a = a[1:]
    if a[0] == '--checks': extra = a[1].split(','); a = a[2:]
    for i in a:
        d = V + '/seeded/' + i; meta = json.load(open(d + '/meta.json'))
        sync()
        res = {}
        if not fast:
            o = sh('bash %s/demo.sh' % d, cwd='/repo'); res['demo_base'] = o.returncode
            if o.returncode: print(o.stdout[-1500:])
        o = sh('patch -p1 < %s/patch.diff' % d, cwd=R)
        if o.returncode: print(i, 'PATCH FAILS', o.stdout); continue
        if not fast:
            o = build()
            if o.returncode: print(i, 'BUILD FAILS', o.stdout[-3000:]); continue
            res['tests_lost'] = tests()
            o = sh('bash %s/demo.sh' % d, cwd=R); res['demo_bug'] = o.returncode
        for c in extra or [meta['property']]:
            if os.path.exists(V + '/checks/%s.py' % c):
                o = sh('./check ' + c, cwd=V, env=dict(os.environ, FCL_REPO=R)); res[c] = (o.returncode, o.stdout.strip().split('\n')[0][:200])
        ok = fast or (not res['tests_lost'] and res['demo_bug'] and not res['demo_base'])
        print(i, 'VALID' if ok else 'INVALID', res, flush=True)
main()
