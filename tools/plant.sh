#!/bin/bash
# plant.sh ID...: validate planted bugs in a scratch copy (/tmp/plantw): applies, builds, passes the stable
# tests, demo ok on the clean tree and failing with the patch. Optionally CHECK=1 runs the property's quick check on it.
V=$(cd "$(dirname "$0")/.." && pwd); W=/tmp/plantw
if [ ! -d $W/repo ]; then
  mkdir -p $W; git clone -q /repo $W/repo
  for f in build.sh test.sh run_case.sh results.py; do sed "s#/repo#$W/repo#g; s#/opt/vp/#$W/#g" /opt/vp/$f > $W/$f; done
fi
cd $W/repo && git checkout -q . && git fetch -q && git reset -q --hard origin/HEAD
bash $W/build.sh > $W/b0.log 2>&1 || { echo "clean build failed"; exit 1; }
for id in "$@"; do
  D=$V/seeded/$id; rm -rf $W/demo; mkdir -p $W/demo; cp -r $D/. $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
  cd $W/repo; git checkout -q .; bash $W/build.sh > $W/b0.log 2>&1
  timeout 300 bash $W/demo/demo.sh > $W/d0.log 2>&1; r0=$?
  git apply $D/patch.diff || { echo "$id: APPLY FAILED"; continue; }
  bash $W/build.sh > $W/b1.log 2>&1 || { echo "$id: BUILD FAILED"; tail -5 $W/b1.log; continue; }
  timeout 300 bash $W/demo/demo.sh > $W/d1.log 2>&1; r1=$?
  bash $W/test.sh $W/t.json > $W/t.log 2>&1
  miss=$(python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);t=set(json.load(open('$W/t.json'))['passed']);print(len(b-t))")
  c=-
  if [ -n "$CHECK" ]; then
    P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
    (cd $V && DST_REPO=$W/repo DST_BUILD=$W/dstbuild timeout 900 ./check.sh $P quick > $W/c.log 2>&1); rc=$?; c="rc=$rc $(grep -m1 VIOLATION $W/c.log)"
  fi
  echo "$id: demo clean=$r0 patched=$r1 failing-stable-tests=$miss check: $c"
  cd $W/repo; git checkout -q .
done
