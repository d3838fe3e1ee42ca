#!/bin/bash
# seedtry.sh ID...: in a scratch copy of /repo, demo must pass unpatched and fail patched; the tests must pass patched; then the property's check
H=$(cd "$(dirname "$0")/.." && pwd)
one() {
 i=$1; s=$H/seeded/$i; w=/tmp/seedtry.$i; mkdir -p $w
 rm -rf "$w"; cp -a /repo $w
 cd $w
 cfg() { cmake -S $w -B $w/_b2 -G Ninja -DCMAKE_BUILD_TYPE=Release -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_DISABLE_FIND_PACKAGE_Doxygen=ON >$w/cfg.log 2>&1 && ninja -C $w/_b2 -j4 >$w/build.log 2>&1; }
 p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
 bash $s/demo.sh > $w/d0.log 2>&1; r0=$?
 git apply $s/patch.diff || echo APPLY-FAILED
 rm -rf "$w/_build"; cfg || { echo "$i BUILD FAILED"; tail -5 $w/build.log; }
 mv $w/_b2 $w/_build
 bash $s/demo.sh > $w/d1.log 2>&1; r1=$?
 t=$(cd $w/_build && ./tests/boost_tests_run --run_test='!CheckCalibration' 2>&1 | grep -a "No errors\|failure" | tail -1)
 c=$(cd $H && SA_REPO=$w SA_EVID=$w python3 check.py $p 2>&1 | grep -a VIOLATION -A1 | head -2 | cut -c1-220 | tr '\n' ' ')
 echo "$i [$p] demo clean=$r0 patched=$r1 ($(tail -1 $w/d1.log | cut -c1-80)) tests: $t check: ${c:-MISSED}"
 cd /; rm -rf "$w"
}
for i in "$@"; do one $i & while [ $(jobs -r | wc -l) -ge 4 ]; do sleep 0.3; done; done; wait
