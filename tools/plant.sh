#!/bin/bash
# plant.sh ID [CHECK...]: confirm seeded change ID in a scratch copy of /repo (builds, stable tests pass, demo 0 without / nonzero with it),
# then run the checks named (default: the property of meta.json) against the copy.  NOTEST=1 skips the tests.
ID=$1; shift
S=/verif/seeded/$ID
W=/tmp/bt/${SLOT:-0}
mkdir -p /tmp/bt
if [ ! -d $W ]; then
  cp -a /repo $W && rm -rf $W/_build && sed "s#/repo#$W#g" /opt/vp/build.sh > $W.build.sh && sed "s#/repo#$W#g; s#/opt/vp/build.sh#$W.build.sh#" /opt/vp/test.sh > $W.test.sh
  bash $W.build.sh > $W.log 2>&1 || { echo "base build failed"; exit 3; }
fi
git -C $W checkout -q -- . ; git -C $W fetch -q /repo HEAD && git -C $W reset -q --hard FETCH_HEAD
bash $W.build.sh > $W.log 2>&1 || { echo "base build failed"; exit 3; }
D=$(mktemp -d /tmp/bt/demo.XXXX); cp $S/* $D/; rm -f $D/patch.diff $D/meta.json
(cd $W && bash $D/demo.sh > $W.demo0 2>&1); r0=$?
git -C $W apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 3; }
bash $W.build.sh > $W.log 2>&1 || { echo "$ID: build failed"; tail -20 $W.log; git -C $W checkout -q -- .; exit 3; }
(cd $W && bash $D/demo.sh > $W.demo1 2>&1); r1=$?
echo "$ID: demo unchanged=$r0 patched=$r1"; [ $r0 = 0 ] || tail -5 $W.demo0; tail -2 $W.demo1
if [ -z "$NOTEST" ]; then
  bash $W.test.sh $W.json > $W.tlog 2>&1
  python3 - $W.json <<'PY'
import json,sys
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open(sys.argv[1]))['passed'])
print('tests:', 'all stable pass' if s<=p else 'BROKEN '+str(sorted(s-p)[:5]))
PY
fi
C=("$@"); [ ${#C[@]} = 0 ] && C=($(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])"))
for c in "${C[@]}"; do
  EOPSI_REPO=$W VERIF_TIER=quick timeout 900 python3 /verif/check.py $c > $W.check 2>&1; rc=$?
  echo "$c: exit $rc $(grep -m1 VIOLATION $W.check)"; [ $rc = 1 ] || tail -3 $W.check
done
git -C $W checkout -q -- .
rm -rf "$D"
