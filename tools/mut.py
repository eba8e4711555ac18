#!/usr/bin/env python3
"""mut.py FILE OLD NEW [OLD NEW ...] -- ID... : change a scratch copy of /repo, build it, run checks on it, restore."""
import sys, subprocess, os, shutil
a = sys.argv[1:]
k = a.index('--')
f, edits, ids = a[0], a[1:k], a[k+1:]
D = os.environ.get('MUTDIR', '/tmp/mutrepo')
if not os.path.exists(D):
    shutil.copytree('/repo', D, symlinks=True)
src = open('/repo/' + f).read()
s = src
for o, n in zip(edits[::2], edits[1::2]):
    if s.count(o) < 1:
        sys.exit('not found: ' + o)
    s = s.replace(o, n, 1)
open(f'{D}/{f}', 'w').write(s)
try:
    env = dict(os.environ, GOFLAGS='', GOPROXY='off')
    b = subprocess.run(['go', 'build', './...'], cwd=D, env=env, capture_output=True, text=True)
    if b.returncode:
        print('DOES NOT BUILD', b.stderr)
        sys.exit(3)
    if os.environ.get('MUTTEST'):
        t = subprocess.run(['go', 'test', './memcache/...'], cwd=D, env=env, capture_output=True, text=True)
        print(t.stdout[-3000:])
    r = subprocess.run([os.environ.get('AN', '/tmp/an'), '-repo', D, '-out', os.environ.get('OUTD', '/tmp/o')] + ids, capture_output=True, text=True)
    print(r.stdout[:int(os.environ.get('MAXOUT', '2500'))], r.stderr[:800])
finally:
    open(f'{D}/{f}', 'w').write(src)
