#!/usr/bin/env python3
"""cover.py [--cases N] [Pxx...]: line coverage of Jali's sources by the checks.

Builds with --coverage under /tmp/cover and writes annotated sources
(/tmp/cover/*.gcov.txt) and a list of lines no check executed."""
import concurrent.futures, glob, importlib.machinery, importlib.util, json, os, subprocess, sys, tempfile, gzip
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
l = importlib.machinery.SourceFileLoader('chk', V + '/check')
chk = importlib.util.module_from_spec(importlib.util.spec_from_loader('chk', l)); l.exec_module(chk)
args = sys.argv[1:]
cases = '3000'
if '--cases' in args:
    i = args.index('--cases'); cases = args[i+1]; del args[i:i+2]
props = args or open(V + '/tools/claimed').read().split()
T = '/tmp/cover'; os.makedirs(T, exist_ok=True)
flags = [f for f in chk.COMMON if f not in ('-O1', '-fsanitize=address', '-D_GLIBCXX_ASSERTIONS')] + ['-O0', '-DPBT_COVER']
jobs = []
for d in chk.DIRS:
    for s in glob.glob(chk.SRC + '/' + d + '/*.cc'):
        jobs.append((s, 'c++11', ['--coverage']))
for s in [V + '/harness/pbt.cc'] + glob.glob(V + '/harness/lib/*.cc'): jobs.append((s, 'gnu++17', []))
for p in props: jobs.append((V + '/harness/props/%s.cc' % p, 'gnu++17', ['--coverage']))
def comp(j):
    s, std, ex = j
    o = T + '/' + os.path.basename(s)[:-3] + '.o'
    r = subprocess.run(['g++', '-std=' + std] + flags + ex + ['-c', s, '-o', o], text=True, capture_output=True, cwd=T)
    if r.returncode: sys.exit(r.stderr[-2000:])
    return o
for f in glob.glob(T + '/*.gcda'): os.unlink(f)
with concurrent.futures.ThreadPoolExecutor(8) as ex: objs = list(ex.map(comp, jobs))
lib = [o for o in objs if not os.path.basename(o)[0] == 'P' or os.path.basename(o)[:3] not in props]
env = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_plm='isolated',
  OMPI_MCA_btl='self,vader', OMPI_MCA_ess_singleton_isolated='1', TMPDIR=T)
cov = {}
for p in props:
    exe = T + '/' + p
    for f in glob.glob(T + '/*.gcda'): os.unlink(f)
    subprocess.check_call(['g++', '--coverage', '-o', exe] + lib + [T + '/%s.o' % p] + chk.LIBS)
    with tempfile.TemporaryDirectory() as d:
        r = subprocess.run([exe, '--tier', 'quick', '--seed', '1', '--cases', cases, '--rundir', d, '--replaydir', d,
                        '--evidence', d + '/e.json'], env=env, cwd=T, capture_output=True, text=True, errors='replace')
        print(p, r.stdout.strip().splitlines()[-1:], flush=True)
    for g in glob.glob(T + '/*.gcda'):
        r = subprocess.run(['gcov', '-j', '-t', g], cwd=T, capture_output=True)
        for line in r.stdout.splitlines():
            for f in json.loads(line)['files']:
                n = os.path.realpath(os.path.join(T, f['file']))
                if not n.startswith(chk.SRC): continue
                c = cov.setdefault(n[len(chk.SRC)+1:], {})
                for x in f['lines']:
                    c.setdefault(x['line_number'], {})
                    if x['count']:
                        q = c[x['line_number']]
                        q[p] = q.get(p, 0) + x['count']
json.dump(cov, open(T + '/cov.json', 'w'))
with open(T + '/uncovered.txt', 'w') as out:
    for n in sorted(cov):
        c = cov[n]; miss = sorted(k for k in c if not c[k])
        print('%5d of %5d lines not run  %s' % (len(miss), len(c), n))
        src = open(chk.SRC + '/' + n).read().splitlines()
        out.write('== %s\n' % n)
        for k in miss: out.write('%5d %s\n' % (k, src[k-1]))
