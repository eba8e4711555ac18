#!/usr/bin/env python3
"""mkseed.py ID PROP NEEDS BREAKS [@FILE OLD NEW [OLD NEW ...]]...   (demonstration test functions on stdin)
Makes /verif/seeded/ID from an edit of the files and a demonstration; PKG=memcache/stats changes the package."""
import sys, os, subprocess, json, shutil
i, prop, needs, breaks = sys.argv[1:5]
rest = sys.argv[5:]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = f'{V}/seeded/{i}'
os.makedirs(S, exist_ok=True)
D = '/tmp/mkseedrepo'
subprocess.run(['rsync', '-a', '--delete', '/repo/', D + '/'], check=True)
f = None
files = {}
k = 0
while k < len(rest):
    if rest[k].startswith('@'):
        f = rest[k][1:]
        files.setdefault(f, open(f'{D}/{f}').read())
        k += 1
        continue
    o, n = rest[k], rest[k + 1]
    if files[f].count(o) < 1:
        sys.exit('not found: ' + o)
    if files[f].count(o) > 1 and not os.environ.get('FIRST'):
        sys.exit('ambiguous: ' + o)
    files[f] = files[f].replace(o, n, 1)
    k += 2
for f, s in files.items():
    open(f'{D}/{f}', 'w').write(s)
    subprocess.run(['gofmt', '-w', f'{D}/{f}'], check=True)
d = subprocess.run(['git', 'diff'], cwd=D, capture_output=True, text=True).stdout
open(S + '/patch.diff', 'w').write(d)
pkg = os.environ.get('PKG', 'memcache')
body = sys.stdin.read()
if body.strip():
    name = 'package ' + os.environ.get('PKGNAME', pkg.split('/')[-1]) + '\n\n'
    if 'netconn.' in body and pkg == 'memcache':
        name += 'import "github.com/QuangTung97/go-memcache/memcache/netconn"\n\n'
    open(S + '/zz_demo_test.go', 'w').write(name + body)
    if pkg == 'memcache' and not os.environ.get('NOLIB'):
        shutil.copy(V + '/tools/demo/zz_lib_test.go', S)
    open(S + '/pkg', 'w').write(pkg + '\n')
    if os.environ.get('FLAGS'):
        open(S + '/flags', 'w').write(os.environ['FLAGS'] + '\n')
    subprocess.run(['goimports', '-w', S + '/zz_demo_test.go'], check=True)
shutil.copy(V + '/tools/demo/demo.sh', S)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(S + '/meta.json', 'w'), indent=1)
print(d)
