#!/bin/bash
# tools/seedtest.sh ID...: validates planted bugs in a private copy bind-mounted over /repo (build, tests, demo on both trees)
for id in "$@"; do
D=/tmp/seedtest.$$.$id; cp -a /repo $D
unshare -Urm bash -c '
id='$id'; mount --bind '$D' /repo; cd /repo
S=/tmp/seeddir.$$; cp -r /verif/seeded/$id $S
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "$id: CLEAN BUILD FAILED"
timeout 300 bash $S/demo.sh >$S/out0 2>&1; r0=$?
git apply $S/patch.diff || { echo "$id: patch does not apply"; exit; }
bash /opt/vp/build.sh >$S/b 2>&1 || { echo "$id: BUILD FAILED"; tail -5 $S/b; exit; }
timeout 300 bash $S/demo.sh >$S/out1 2>&1; r1=$?
echo "$id: demo clean=$r0 patched=$r1"; [ $r0 = 0 ] || tail -5 $S/out0; [ $r1 != 0 ] || tail -5 $S/out1
if [ -z "$NOTESTS" ]; then bash /opt/vp/test.sh $S/t.json >$S/tl 2>&1
python3 - $S/t.json <<P
import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); b=set(b["stable"])
r=set(json.load(open(sys.argv[1]))["passed"]); m=sorted(b-r); print("'$id': baseline tests now failing:",len(m),m[:4])
P
fi
/bin/rm -rf $S'
/bin/rm -rf $D
done
