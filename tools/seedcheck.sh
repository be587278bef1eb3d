#!/bin/bash
# seedcheck.sh ID [checks...] : judge /verif/seeded/ID in a private copy (user+mount+net namespace), nothing shared is written.
#  prints: demo on clean, build, tests, demo on patched, then each check's verdict (default: the bug's property)
#  env: NOTESTS=1 skip the test suite, NOCLEAN=1 skip the demo on the clean tree
ID=$1; shift
SD=/verif/seeded/$ID
PROP=$(python3 -c "import json;print(json.load(open('$SD/meta.json'))['property'])")
CHECKS=${*:-$PROP}
W=$(mktemp -d /var/tmp/seedck-XXXXXX)
mkdir -p $W/t; cp -a /repo $W/repo; mkdir $W/verif; cp -a /verif/vf /verif/checks /verif/harness /verif/cfg /verif/known-findings.txt /verif/properties.jsonl $W/verif/
[ -d /verif/tools ] && cp -a /verif/tools $W/verif/
mkdir $W/verif/evidence; cp -a /opt/vp $W/vp
cp -a $SD $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
cp $SD/patch.diff $W/patch.diff
cat > $W/in.sh <<X
ip link set lo up 2>/dev/null
mkdir $W/tmp; chmod 1777 $W/tmp; mount --bind $W/tmp /tmp; mount --bind $W/repo /repo; mount --bind $W/verif /verif; mount --bind $W/vp /opt/vp
mkdir -p $W/t2; cp -a $W/demo $W/t2/demo
cd /repo
bash /opt/vp/build.sh >$W/build0.log 2>&1 || echo "BUILD0 FAILED"
if [ -z "$NOCLEAN" ]; then timeout 300 bash $W/t2/demo/demo.sh >$W/demo0.log 2>&1; echo "$ID demo clean rc=\$? (want 0)"; fi
git -c safe.directory=* apply $W/patch.diff || { echo "PATCH FAILED"; exit 1; }
bash /opt/vp/build.sh >$W/build1.log 2>&1 || { echo "BUILD FAILED"; tail -20 $W/build1.log; exit 1; }
timeout 300 bash $W/t2/demo/demo.sh >$W/demo1.log 2>&1; echo "$ID demo patched rc=\$? (want !=0)"; tail -3 $W/demo1.log | cut -c1-300
if [ -z "$NOTESTS" ]; then bash /opt/vp/test.sh $W/t.json >$W/test.log 2>&1; python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];t=json.load(open('$W/t.json'));m=[x for x in b if x not in t['passed']];print('$ID tests: stable missing:',m)"; fi
cd /verif
for c in $CHECKS; do VERIF_SEED=1 timeout 900 python3 vf/run.py \$c quick >$W/c.log 2>&1; echo "$ID check \$c rc=\$? \$(grep -m1 -E 'key=' $W/c.log | cut -c1-160)"; tail -1 $W/c.log | cut -c1-200; done
X
unshare -Urmn --propagation private bash $W/in.sh
rm -rf "$W"
