#!/bin/bash
# plant.sh ID [nocheck]: confirms a planted bug in a scratch copy (bind-mounted over /repo and /verif in a private mount namespace).
id=$1
S=/tmp/sw; mkdir -p $S
[ -d $S/repo ] || cp -a /repo $S/repo
(cd $S/repo && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq)
mkdir -p $S/verif $S/out
rsync -a --delete --exclude .build --exclude out --exclude evidence /verif/ $S/verif/ 2>/dev/null || { rm -rf $S/verif.new; mkdir -p $S/verif; (cd /verif && tar c --exclude=./.build --exclude=./out --exclude=./evidence . | tar x -C $S/verif); }
mkdir -p $S/vp; cp -a /opt/vp/. $S/vp/
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
unshare -Urm bash -c "
mount --bind $S/repo /repo && mount --bind $S/verif /verif && mount --bind $S/vp /opt/vp || exit 9
cd /repo
if [ '$2' != checkonly ]; then
bash /opt/vp/build.sh > $S/out/$id.b0 2>&1 || echo 'UNPATCHED BUILD FAILED'
bash /verif/seeded/$id/demo.sh > $S/out/$id.d0 2>&1; echo \"demo unpatched: \$?\"
fi
git apply /verif/seeded/$id/patch.diff || { echo 'PATCH DOES NOT APPLY'; exit 8; }
if [ '$2' != checkonly ]; then
bash /opt/vp/build.sh > $S/out/$id.b1 2>&1 || { echo 'PATCHED BUILD FAILED'; tail -5 $S/out/$id.b1; }
bash /verif/seeded/$id/demo.sh > $S/out/$id.d1 2>&1; echo \"demo patched: \$?\"; tail -2 $S/out/$id.d1
bash /opt/vp/test.sh $S/out/$id.t > $S/out/$id.tlog 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$S/out/$id.t'))
bp=set(b.get('stable', b.get('passed', b.get('tests', []))))
print('stable tests lost:', sorted(bp-set(t['passed'])))
PY
fi
if [ '$2' != nocheck ]; then
cd /verif && for p in $P \$EXTRA; do VERIF_SEED=1 VERIF_TIER=quick timeout 900 bin/check \$p > $S/out/$id.c 2>&1; echo \"check \$p: \$?\"; grep -m1 VIOLATION $S/out/$id.c | cut -c1-200; tail -1 $S/out/$id.c | cut -c1-200; done
fi
cd /repo && git checkout -q -f HEAD -- .
"
