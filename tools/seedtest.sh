#!/bin/bash
# seedtest.sh ID...: validates planted bugs in the scratch clone /tmp/sd (not a registered check).
S=/tmp/sd
[ -d $S ] || git clone -q /repo $S
mkdir -p /tmp/sdcmake; sed "s#/repo#$S#" /opt/vp/cmake/CMakeLists.txt > /tmp/sdcmake/CMakeLists.txt
bt() { cmake -S /tmp/sdcmake -B $S/_build -G Ninja -DCMAKE_BUILD_TYPE= -DCMAKE_CXX_FLAGS="-O2 -g" >/dev/null && ninja -C $S/_build check_headers >/tmp/sd.b 2>&1 || { echo "  BUILD FAILED"; tail -5 /tmp/sd.b; return 1; }
  rm -rf $S/_build/bin; ninja -C $S/_build -k 0 check_tests >/tmp/sd.b 2>&1; ctest --test-dir $S/_build -j8 --timeout 120 > /tmp/sd.t 2>&1; grep "tests passed" /tmp/sd.t; grep -E "Failed|Timeout|Not Run" /tmp/sd.t | head; }
for id in "$@"; do
  D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git -C $S checkout -q -- . ; git -C $S pull -q --ff-only /repo HEAD
  W=$(mktemp -d /tmp/sdemo.XXXX); cp -r $D/. $W; rm -f $W/*.diff $W/meta.json
  [ -e $S/_build/include/sharemind ] || cmake -S /tmp/sdcmake -B $S/_build -G Ninja >/dev/null
  (cd $S && timeout 300 bash $W/demo.sh >/tmp/sd.d0 2>&1); r0=$?
  git -C $S apply $D/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; continue; }
  (cd $S && timeout 300 bash $W/demo.sh >/tmp/sd.d1 2>&1); r1=$?
  echo "== $id ($P): demo clean=$r0 bug=$r1"; tail -2 /tmp/sd.d0; tail -2 /tmp/sd.d1
  [ -n "$NOTEST" ] || bt
  if [ -z "$NOCHECK" ]; then (cd /verif && VERIF_REPO=$S timeout 900 python3 check.py $P --tier quick > /tmp/sd.c 2>&1); rc=$?; echo "  check rc=$rc $(grep -m1 VIOLATION /tmp/sd.c)"; grep -v VIOLATION /tmp/sd.c | grep -iE "fail|error|wrong|instead|deadlock|race" | head -2; fi
  git -C $S checkout -q -- .
  rm -rf $W
done
