#!/bin/bash
# try a planted bug: seed.sh <id> [nocheck]. Everything happens in a scratch copy bound over /repo
# in a private mount namespace; the real /repo is never touched.
id=$1; V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$id; W=/tmp/sc-$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
mkdir -p $W && cp -a /repo/. $W/ || exit 2
D=/tmp/demo-$id; mkdir -p $D; cp -a $S/. $D/; rm -f $D/patch.diff $D/meta.json
export id S W D prop V MODE=${2:-check}
unshare -Urm bash -c '
mount --bind $W /repo; cd /repo; git checkout -q -- .; 
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $D/demo.sh >$D/clean.log 2>&1; rc=$?; echo "$id: demo clean rc=$rc"; [ $rc = 0 ] || tail -5 $D/clean.log
git apply $S/patch.diff || { echo "$id: patch does not apply"; exit 2; }
bash /opt/vp/build.sh >$D/build.log 2>&1 || { echo "$id: BUILD FAILS"; tail -5 $D/build.log; }
bash /opt/vp/test.sh $D/t.json >/dev/null 2>&1; python3 -c "
import json;d=json.load(open(\"$D/t.json\"));print(\"$id: tests passed\",len(d[\"passed\"]) if not isinstance(d[\"passed\"],int) else d[\"passed\"],\"failed\",d[\"failed\"])"
timeout 300 bash $D/demo.sh >$D/bug.log 2>&1; rc=$?; echo "$id: demo patched rc=$rc"; [ $rc != 0 ] || tail -5 $D/bug.log
if [ $MODE = check ]; then cd $V; VF_BUILD=/tmp/scb timeout 900 python3 run.py $prop quick >$D/check.log 2>&1; echo "$id: check $prop rc=$?"; grep -v "^OK" $D/check.log | cut -c1-300 | head -6; fi
'
rm -rf /tmp/sc-$id /tmp/demo-$id
