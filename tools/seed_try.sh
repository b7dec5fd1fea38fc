#!/bin/bash
# dev helper: seed_try.sh ID [notest] -- apply seeded/ID in a private copy bind-mounted
# over /repo; run build, stable tests, demo (before/after) and the property's check.
V=$(cd "$(dirname "$0")/.."; pwd); id=$1; S=$V/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
D=$(mktemp -d /tmp/st.XXXX); cp -a /repo $D/repo
unshare -m bash -c "
mount --bind $D/repo /repo; cd /repo
bash $S/demo.sh >$D/d0 2>&1; echo demo-clean \$?
git apply $S/patch.diff || exit 9
bash /opt/vp/build.sh 2>&1 | tail -1
bash $S/demo.sh >$D/d1 2>&1; echo demo-patched \$? ; tail -2 $D/d1
if [ -z '$2' ]; then bash /opt/vp/test.sh $D/t.json >/dev/null 2>&1; python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=set(json.load(open('$D/t.json'))['passed'])
m=sorted(b-t); print('missing tests', len(m), m[:4])
P
fi
cd $V; rm -rf $D/v; cp -a $V $D/v; cd $D/v; VERIF_SEED=1 python3 run_check.py $prop 2>&1 | cut -c1-400 | tail -6
"
rm -rf $D
