#!/usr/bin/env python3
"""Undo each repair listed in KNOWN_FINDINGS.txt in a scratch copy of /repo and
see that the property's check reports it.  Usage: regress.py [commit...]"""
import os, re, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
want = sys.argv[1:]
for line in open(os.path.join(V, 'KNOWN_FINDINGS.txt')):
    m = re.match(r'fixed: property=(P\d+) (\w+) (.*)', line)
    if not m or (want and m.group(2) not in want):
        continue
    pid, commit, what = m.groups()
    if pid not in open(os.path.join(V, 'tools/claimed')).read().split():
        print(pid, commit, 'not claimed yet'); continue
    tmp = tempfile.mkdtemp(prefix='regress')
    try:
        subprocess.check_call('git -C %s archive HEAD | tar x -C %s' % (R, tmp), shell=True)
        diff = subprocess.check_output(['git', '-C', R, 'show', '--format=', commit])
        p = subprocess.run(['patch', '-R', '-p1', '-s', '-d', tmp], input=diff, capture_output=True)
        if p.returncode:
            print(pid, commit, 'cannot be undone any more:', p.stdout.decode()[:200]); continue
        p = subprocess.run([os.path.join(V, 'check'), pid], env=dict(os.environ, JALI_REPO=tmp),
                           capture_output=True, text=True)
        print(pid, commit, 'reported' if p.returncode == 1 and 'VIOLATION property=' + pid in p.stdout else
              'NOT REPORTED rc=%d %s' % (p.returncode, p.stdout[-300:] + p.stderr[-300:]), '|', p.stdout.split('\n')[0][:150], flush=True)
    finally:
        shutil.rmtree(tmp)
