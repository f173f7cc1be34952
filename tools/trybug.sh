#!/bin/bash
# tools/trybug.sh ID [check ...]: in a scratch copy of /repo, see that the
# demonstration of seeded/ID passes without and fails with its patch, that the
# patched tree builds and passes the stable tests, and run the given checks on it.
# NOTEST=1 leaves the build, test and demonstration steps out.
id=$1; shift
d=/verif/seeded/$id; w=/tmp/bug.$id; vp=/tmp/bug.$id.vp
mkdir -p $w $vp
cp -a /repo/. $w/
for f in /opt/vp/*.sh /opt/vp/*.py; do sed "s#/repo#$w#g; s#/opt/vp/common.sh#$vp/common.sh#; s#/opt/vp/run_units.py#$vp/run_units.py#; s#/opt/vp/results.py#$vp/results.py#" $f >$vp/$(basename $f); done
st=0
demo() { mkdir -p $vp/demo; cp $d/* $vp/demo/; (cd $w && timeout 300 bash $vp/demo/demo.sh >$vp/demo.log 2>&1); }
if [ -z "$NOTEST" ]; then
	bash $vp/build.sh >$vp/b.log 2>&1 || echo "$id: clean build failed"
	demo || { echo "$id: DEMO FAILS ON CLEAN"; cat $vp/demo.log; st=1; }
fi
(cd $w && git apply $d/patch.diff) || { echo "$id: PATCH DOES NOT APPLY"; st=1; }
if [ -z "$NOTEST" ]; then
	bash $vp/build.sh >$vp/b.log 2>&1 || { echo "$id: BUILD FAILS"; tail -5 $vp/b.log; st=1; }
	demo && { echo "$id: DEMO PASSES WITH BUG"; st=1; }
	tail -3 $vp/demo.log
	bash $vp/test.sh $vp/t.json >$vp/t.log 2>&1
	python3 - $vp/t.json <<'P' || st=1
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
p=set(t.get('passed',t.get('stable',[]))); miss=[x for x in b['stable'] if x not in p]
if miss: print('MISSING TESTS',len(miss),miss[:3]); sys.exit(1)
P
fi
[ $st = 0 ] && echo "$id: valid"
for c in "$@"; do
	o=$(cd /verif && VERIF_EVIDENCE=$vp VERIF_REPO=$w python3 run.py $c quick 2>&1); rc=$?
	echo "$id: $c exit $rc $(echo "$o" | grep -m1 VIOLATION)"
	echo "$o" >$vp/out.$c
done
rm -rf $w
[ -n "$KEEP" ] || rm -rf $vp
exit $st
