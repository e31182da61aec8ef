#!/bin/bash
# seed.sh ID [nocheck]: confirms a planted bug in a scratch copy of /repo and
# runs the property's check against it. Uses /tmp/wt (scratch) only.
id=$1; S=/verif/seeded/$id; W=${WT:-/tmp/wt}
set -u
if [ ! -d $W/.git ]; then
  mkdir -p $W && cp -a /repo/. $W/ && rm -rf $W/_build && mkdir -p $W.h && cp -a /opt/vp/harness/. $W.h/ &&
  sed -i "s#/repo#$W#g; s#/opt/vp/harness#$W.h#g" $W.h/env.sh $W.h/run_cases.py $W.h/demo/CMakeLists.txt
fi
cd $W && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
build() { ( . $W.h/env.sh; build_tests ) > $W.h/build.log 2>&1; }
tests() { ( . $W.h/env.sh; rm -f $B/results.txt; python3 $W.h/run_cases.py $B/results.txt >/dev/null 2>&1; grep -c ^PASS $B/results.txt; grep ^FAIL $B/results.txt | head -5 ); }
if [ -z "${SKIPCLEAN:-}" ]; then
  build || { echo "clean build failed"; exit 1; }
  timeout 300 bash $S/demo.sh > $W.h/demo0.log 2>&1; echo "demo clean: $?"
fi
git apply $S/patch.diff || { echo "patch does not apply"; exit 1; }
build || { echo "patched build FAILED"; tail -5 $W.h/build.log; git checkout -q -- .; exit 1; }
echo "tests passed: $(tests)"
timeout 300 bash $S/demo.sh > $W.h/demo1.log 2>&1; echo "demo patched: $?  $(tail -1 $W.h/demo1.log | cut -c1-150)"
if [ -z "${2:-}" ]; then
  p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  for q in $p ${ALSO:-}; do
  VERIF_REPO=$W timeout 900 python3 /verif/check.py $q > $W.h/check.log 2>&1; echo "check $q: $?  $(grep -m3 -A1 '^  \|^VIOL\|INCON\|HARN' $W.h/check.log | cut -c1-260)"
  done
fi
git checkout -q -- .
