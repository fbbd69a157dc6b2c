#!/bin/bash
# seedtest.sh ID [nobuild]: in a scratch copy bind-mounted over /repo (own mount namespace): demo without, patch, build, tests, demo with, check
ID=$1; V=/verif
[ -d /tmp/rs ] || cp -a /repo /tmp/rs
rsync -rlpgoc --delete --exclude=_build /repo/ /tmp/rs/ 2>/dev/null || { rm -rf /tmp/rs; cp -a /repo /tmp/rs; }
PROP=$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")
export ID V PROP MODE=$2
unshare -Urm bash -c '
mount --bind /tmp/rs /repo; cd /repo
[ "$MODE" = nobuild ] || { bash $V/seeded/$ID/demo.sh >/tmp/seed.$ID.demo0 2>&1; echo "demo clean rc=$?"; }
git apply $V/seeded/$ID/patch.diff || exit 9
if [ "$MODE" != nobuild ]; then
bash /opt/vp/build.sh >/tmp/seed.$ID.build 2>&1 || echo BUILD FAILED
bash /opt/vp/test.sh /tmp/seed.$ID.json >/tmp/seed.$ID.test 2>&1
python3 -c "
import json
o=json.load(open(\"/tmp/seed.$ID.json\")); b=json.load(open(\"/opt/vp/BASELINE.json\"))
print(\"stable failing:\", sorted(set(b[\"stable\"])-set(o[\"passed\"]))[:5])"
bash $V/seeded/$ID/demo.sh >/tmp/seed.$ID.demo1 2>&1; echo "demo patched rc=$?"
fi
cd $V; VERIF_EVID=/tmp/evid.$ID python3 check.py $PROP --tier quick >/tmp/seed.$ID.check 2>/tmp/seed.$ID.err; echo "$ID check $PROP rc=$?"; head -3 /tmp/seed.$ID.check
cd /repo; git checkout -q -- .
'
