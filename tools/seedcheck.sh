#!/bin/bash
# seedcheck.sh ID [check ids...]: confirm a planted change in a scratch copy (build, stable tests, demo with and
# without it) and run the named checks (default: its property) against the copy. Everything happens in /tmp/vpseed.
ID=$1; shift
V=/verif; S=/tmp/vpseed/repo; T=/tmp/vpseed/vp
export OPENBLAS_NUM_THREADS=1
if [ ! -d $S ]; then mkdir -p /tmp/vpseed; cp -a /repo $S; fi
git -C $S checkout -q -- . ; git -C $S fetch -q /repo HEAD 2>/dev/null && git -C $S reset -q --hard FETCH_HEAD
mkdir -p $T; for f in build.mk build.sh test.sh parse_driver.py results.py; do sed "s#/opt/vp/#$T/#g; s#/repo#$S#g" /opt/vp/$f > $T/$f.new; cmp -s $T/$f.new $T/$f || mv $T/$f.new $T/$f; done
D=/tmp/vpseed/demo; mkdir -p $D; rm -f $D/*; cp $V/seeded/$ID/* $D/; rm -f $D/*.diff $D/meta.json
bash $T/build.sh > /tmp/vpseed/b.log 2>&1 || { echo "$ID: base build fails"; exit 1; }
(cd $S; bash $D/demo.sh > /tmp/vpseed/d0.log 2>&1); r0=$?
git -C $S apply $V/seeded/$ID/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
bash $T/test.sh /tmp/vpseed/o.json > /tmp/vpseed/t.log 2>&1
lost=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/vpseed/o.json'))['passed'];print(len(set(b)-set(o)))")
(cd $S; bash $D/demo.sh > /tmp/vpseed/d1.log 2>&1); r1=$?
P=$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")
echo "$ID ($P): demo clean=$r0 patched=$r1 lost_tests=$lost $( [ $r0 = 0 -a $r1 != 0 -a $lost = 0 ] && echo OK || echo BAD )"
for c in ${@:-$P}; do VP_REPO=$S python3 $V/run.py check $c --tier quick 2>/dev/null | grep -E "^(VIOLATION|  |C[0-9]+:)" | cut -c1-220 | head -12; done
git -C $S checkout -q -- .
