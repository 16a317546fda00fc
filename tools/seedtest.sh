#!/bin/bash
# seed.sh DIR [props...]: DIR = /verif/seeded/X ; validates patch+demo in scratch copy, runs checks against it
D=$(realpath $1); shift
S=$(mktemp -d /tmp/seed/XXXXXX); trap "/bin/rm -r $S" EXIT
cp -a /repo $S/repo
mkdir $S/vp; cp -a /opt/vp/. $S/vp/; for f in $S/vp/*.sh $S/vp/*.py $S/vp/*.mk; do sed -i "s#/repo#$S/repo#g; s#/opt/vp#$S/vp#g" $f 2>/dev/null; done
cp -a $D $S/demo; rm -f $S/demo/*.diff $S/demo/meta.json
cd $S/repo
bash $S/vp/build.sh >$S/b0.log 2>&1 || { echo BUILD0 FAILED; tail -5 $S/b0.log; }
timeout 300 bash $S/demo/demo.sh >$S/d0 2>&1; r0=$?
git apply $D/patch.diff || { echo PATCH FAILS; exit 1; }
bash $S/vp/build.sh >$S/b1.log 2>&1 || { echo BUILD FAILED; tail -5 $S/b1.log; exit 1; }
bash $S/vp/test.sh $S/out.json >$S/t.log 2>&1
python3 - $S/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[1]))
st=set(b['stable'])
print('tests missing:',sorted(st-set(o['passed']))[:5])
P
timeout 300 bash $S/demo/demo.sh >$S/d1 2>&1; r1=$?
echo "$(basename $D): demo clean=$r0 patched=$r1"; [ $r0 != 0 ] && tail -5 $S/d0; tail -2 $S/d1
if [ $# -gt 0 ]; then
 mkdir $S/verif; cd /verif; cp -a checks lib spec harness tools run.py known-findings.json $S/verif/; mkdir -p $S/verif/evidence
 for p in "$@"; do (cd $S/verif; REPO=$S/repo timeout 900 python3-vt run.py $p ${T:-quick} >$S/c.log 2>&1; echo "check $p exit $? $(grep -m1 -c VIOLATION $S/c.log)"; grep -m2 -A2 "VIOLATION\|ERROR" $S/c.log | cut -c1-${W:-220}); done
fi
