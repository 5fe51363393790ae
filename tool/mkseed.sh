#!/bin/bash
# development aid: verify a planted bug. usage: mkseed.sh ID   (expects /verif/seeded/ID/{patch.diff,demo.cpp,meta.json}; adds demo.sh when absent)
S=/verif/seeded/$1
[ -f $S/demo.sh ] || cp /verif/tool/demo.sh $S/demo.sh
cd /repo || exit 1
git diff --quiet || { echo "repo dirty"; exit 1; }
bash /opt/vp/build.sh >/tmp/mk.log 2>&1 || { tail -5 /tmp/mk.log; exit 1; }
rundemo() { D=$(mktemp -d /tmp/dm.XXXXXX); cp $S/* $D/; rm -f $D/*.diff $D/meta.json; ( cd /repo && timeout 300 bash $D/demo.sh ); r=$?; find $D -delete; return $r; }
rundemo; a=$?
git apply $S/patch.diff || { echo "patch does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/mk.log 2>&1; b=$?
[ $b = 0 ] || tail -20 /tmp/mk.log
bash /opt/vp/test.sh /tmp/mk.json >/tmp/mkt.log 2>&1
t=$(python3 -c "
import json; b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/mk.json'))
w=b.get('passed') or b.get('stable') or b; print('ok' if set(w)<=set(o['passed']) else 'FAIL '+str(sorted(set(w)-set(o['passed']))[:4]))")
rundemo; d=$?
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
python3 /verif/check.py $P > /tmp/mkc.log; c=$?
git checkout -q -- .
bash /opt/vp/build.sh >/tmp/mk.log 2>&1
echo "SEED $1 [$P]: demo clean=$a build=$b tests=$t demo patched=$d check=$c"; [ $c = 1 ] && grep broken /tmp/mkc.log | head -3
