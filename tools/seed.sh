#!/bin/bash
# seed.sh ID...: confirms a planted bug in a scratch copy of /repo: applies, builds, stable tests pass,
# the demonstration passes without and fails with it; then runs the property's check on it (AN=analyser).
AN=${AN:-/tmp/an}
V=$(cd "$(dirname "$0")/.." && pwd)
D=/tmp/seedrepo
for id in "$@"; do
	S=$V/seeded/$id
	rsync -a --delete /repo/ $D/ 2>/dev/null || { mkdir -p $D; cp -a /repo/. $D/; }
	(cd $D && git checkout -q -- . && git clean -fdq)
	run() { (cd $D && timeout 300 bash "$S/demo.sh" > /tmp/seed.$1.log 2>&1; echo $?); }
	o=$(python3 - "$S/patch.diff" <<'PY'
import re,subprocess,sys
f=None; res=[]
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f=l[6:].strip()
    m=re.match(r'@@ -(\d+)',l)
    if m: n=int(m.group(1)); continue
    if f is None or l[:3] in('---','+++') or l.startswith('diff') or l.startswith('index'): continue
    if l[0]=='-':
        b=subprocess.run(['git','-C','/repo','blame','-s','-L',f'{n},{n}','HEAD','--',f],capture_output=True,text=True).stdout
        res.append(b.startswith('^') or b.startswith('c018766'))
    if l[0] in ' -': n+=1
print(f"{sum(res)}/{len(res)}")
PY
)
	a=$(run base)
	(cd $D && git apply "$S/patch.diff") || { echo "$id DOES NOT APPLY"; continue; }
	(cd $D && GOFLAGS=-mod=mod GOPROXY=off go build ./...) || { echo "$id DOES NOT BUILD"; continue; }
	b=$(run bug)
	t=skipped
	if [ -z "$NOTEST" ]; then
		sed "s#/opt/vp/work#/tmp/seedwork#g; s#cd /repo#cd $D#; s#\"/repo/\\\$dir\"#\"$D/\$dir\"#" /opt/vp/test.sh > /tmp/seedtest.sh
		bash /tmp/seedtest.sh /tmp/seed.json > /tmp/seed.test.log 2>&1
		t=$(python3 - <<'PY'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/seed.json'))
def walk(x):
    if isinstance(x,dict):
        for k in ('passed','pass'):
            if k in x and isinstance(x[k],list): return set(x[k])
    return None
p=walk(r)
if p is None: print('?',str(r)[:200])
else: print('ok' if b<=p else 'FAIL:'+','.join(sorted(b-p))[:300])
PY
)
	fi
	props=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
	c=$("$AN" -repo $D -out /tmp/so $props $EXTRA 2>&1 | grep -v '^$')
	v=$(echo "$c" | grep -c '^VIOLATION')
	echo "$id property=$props orig=$o demo-base=$a demo-bug=$b tests=$t violations=$v"
	echo "$c" | grep ': rule' | head -${LN:-2} | cut -c1-250
	(cd $D && git checkout -q -- .)
done
