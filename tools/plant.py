#!/usr/bin/env python3
"""plant.py [--notest] [--tree N] ID...: confirm planted bugs in a scratch copy.

For each /verif/seeded/ID: demo on the clean tree, apply, build, stable tests,
demo, the property's own quick check; then undo.  Nothing touches /repo."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
notest = '--notest' in args
if notest: args.remove('--notest')
n = '0'
if '--tree' in args:
    i = args.index('--tree'); n = args[i+1]; del args[i:i+2]
props = None
if '--props' in args:
    i = args.index('--props'); props = args[i+1].split(','); del args[i:i+2]
R = '/tmp/plant/r' + n
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

def sh(c, env=None, cwd=None, t=900):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(c, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t)
    except subprocess.TimeoutExpired as x:
        return 124, str(x.stdout)
    return p.returncode, p.stdout

head = sh('git -C /repo rev-parse HEAD')[1].strip()
if not os.path.exists(R) or sh('git -C %s rev-parse HEAD' % R)[1].strip() != head:
    sh('rm -rf %s; mkdir -p /tmp/plant; git clone -q /repo %s' % (R, R))
for f in ('build', 'test'):
    open('/tmp/plant/%s%s.sh' % (f, n), 'w').write(
        open('/opt/vp/%s.sh' % f).read().replace('/repo', R).replace('/opt/vp/build.sh', '/tmp/plant/build%s.sh' % n))
sh('git -C %s checkout -q -- .' % R)
rc, o = sh('bash /tmp/plant/build%s.sh' % n)
if rc: print(o[-2000:]); sys.exit('clean build failed')
ids = args or sorted(os.listdir(V + '/seeded'))
for b in ids:
    d = V + '/seeded/' + b
    meta = json.load(open(d + '/meta.json'))
    out = [b]
    if b not in ('',):
        rc, o = sh('bash %s/demo.sh' % d, cwd=R, t=300)
        out.append('clean-demo %d' % rc)
        if rc: print(o[-1500:])
    rc, o = sh('git apply %s/patch.diff' % d, cwd=R)
    if rc:
        print(*out, 'APPLY FAILED', o); continue
    rc, o = sh('bash /tmp/plant/build%s.sh' % n)
    if rc:
        print(*out, 'BUILD FAILED', o[-1500:])
    else:
        if not notest:
            sh('bash /tmp/plant/test%s.sh /tmp/plant/out%s.json' % (n, n))
            got = set(json.load(open('/tmp/plant/out%s.json' % n))['passed'])
            miss = stable - got
            out.append('tests ' + ('ok' if not miss else 'MISSING %s' % sorted(miss)))
        rc, o = sh('bash %s/demo.sh' % d, cwd=R, t=300)
        out.append('bug-demo %d' % rc + ('' if rc else ' NOT SHOWN'))
        dm = o.strip().splitlines()[-1:] if rc else []
        for p in props or [meta['property']]:
            t = time.time()
            rc, o = sh('%s/check %s' % (V, p), env={'JALI_REPO': R, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
            v = 'VIOLATION property=%s' % p in o
            out.append('%s %s %.0fs' % (p, 'CAUGHT' if rc == 1 and v else 'MISSED rc=%d' % rc, time.time() - t))
            if rc not in (0, 1): print(o[-1500:])
        print(' | '.join(out), '|', *dm, flush=True)
    sh('git -C %s checkout -q -- .' % R)
