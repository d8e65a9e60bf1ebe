#!/bin/bash
# seed_try.sh ID [quick|nocheck]: confirms a planted bug in /repo and reverts it.
ID=$1; MODE=${2:-quick}; S=/verif/seeded/$ID
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 9; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || { echo "clean build failed"; exit 9; }
(cd /repo && bash $S/demo.sh) >/tmp/sd0.log 2>&1; echo "$ID $P demo clean: $?"
git -C /repo apply $S/patch.diff || exit 9
bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || { echo "patched build failed"; tail -5 /tmp/sb.log; exit 9; }
bash /opt/vp/test.sh /tmp/sres.json >/dev/null 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/sres.json'))
bp=b.get('passed') or b.get('stable') or b.get('tests') or b
print('tests missing:', [t for t in bp if t not in set(r['passed'])][:5])
PY
(cd /repo && bash $S/demo.sh) >/tmp/sd1.log 2>&1; echo "$ID demo patched: $? ($(tail -1 /tmp/sd1.log))"
if [ "$MODE" = quick ]; then cd /verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py quick $P >/tmp/sc.log 2>&1; echo "$ID check $P: exit $? $(grep -m1 VIOLATION /tmp/sc.log) $(python3 -c "
import json;c=json.load(open('/verif/evidence/$P.json'));print(c['coverage'].get('evaluations'),c['wall_s'])")"; fi
