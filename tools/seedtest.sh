#!/bin/bash
# seedtest.sh ID [--notest|--nocheck] : confirm a planted bug in a scratch copy of /repo
# (bind-mounted over /repo in a private mount namespace) and run the property's check on it
ID=$1; D=/verif/seeded/$ID; S=/tmp/seed.$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
trap "rm -rf $S /tmp/seedbuild.$ID" EXIT
cd /repo; bash $D/demo.sh >/tmp/seed.$ID.log 2>&1 || { echo "$ID: demo FAILS on clean tree"; tail -5 /tmp/seed.$ID.log; exit 1; }
cp -a /repo $S
cat > /tmp/seed.$ID.in.sh <<X
mount --bind $S /repo || exit 9
cd /repo && git apply $D/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
if [ "$2" = --notest ]; then cmake --build _build --target rapidcheck; else nice bash /opt/vp/build.sh; fi >/tmp/seed.$ID.build 2>&1 || { echo "$ID: build fails"; tail -20 /tmp/seed.$ID.build; exit 1; }
timeout 300 bash $D/demo.sh >/tmp/seed.$ID.log 2>&1 && { echo "$ID: demo PASSES with patch"; exit 1; }
if [ "$2" != --notest ]; then
bash /opt/vp/test.sh /tmp/seed.$ID.json >/tmp/seed.$ID.build 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.$ID.json'))
base=set(b["stable"])
miss=base-set(r['passed'])
print('$ID: tests', 'ok' if not miss else 'MISSING %d: %s' % (len(miss), sorted(miss)[:5]))
P
fi
if [ "$2" = --nocheck ]; then exit 0; fi
cd /verif && VF_BUILD=/tmp/seedbuild.$ID bash -c 'mkdir -p /tmp/seedbuild.$ID && cp -a /verif/build/engine /tmp/seedbuild.$ID/ && timeout 900 python3 vf.py check $P' > /tmp/seed.$ID.check 2>&1
echo "$ID: check exit \$? : \$(grep -m1 VIOLATION /tmp/seed.$ID.check)"
X
unshare -m bash /tmp/seed.$ID.in.sh $1 $2
