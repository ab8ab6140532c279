#!/bin/bash
# seedtest.sh ID...: confirm a planted change: applies, builds, passes the stable tests, demo 0 before / nonzero after.
# Works on a copy of /repo bound over /repo in a private mount namespace.
for id in "$@"; do
d=/verif/seeded/$id
w=/tmp/seedtest.$id.$$
mkdir -p $w && cp -a /repo $w/repo && cp -a $d $w/s && rm -f $w/s/*.diff $w/s/meta.json
cp $d/patch.diff $w/
unshare -m bash -c "
mount --bind $w/repo /repo; cd /repo; export LC_ALL=C.UTF-8
bash /opt/vp/build.sh >$w/b0.log 2>&1 || { echo '$id: base build FAILED'; exit; }
timeout 300 bash $w/s/demo.sh >$w/d0.log 2>&1; r0=\$?
git apply $w/patch.diff || { echo '$id: patch does not apply'; exit; }
bash /opt/vp/test.sh $w/t.json >$w/t.log 2>&1
timeout 300 bash $w/s/demo.sh >$w/d1.log 2>&1; r1=\$?
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$w/t.json'))
def ids(x): return set(x.get('passed') or x.get('stable') or x)
want=set(b['passed'] if 'passed' in b else b.get('stable',b.get('tests',[])))
miss=want-set(t['passed'])
ok = \$r0==0 and \$r1!=0 and not miss and want
print('$id:', 'OK' if ok else 'BAD', 'base demo', \$r0, 'patched demo', \$r1, 'tests', len(want), 'failing', sorted(miss)[:3])
P
tail -2 $w/d1.log | cut -c1-200
[ \$r0 = 0 ] || tail -5 $w/d0.log
"
[ -d "$w" ] && find "$w" -delete
done
