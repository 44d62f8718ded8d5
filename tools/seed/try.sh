#!/bin/bash
# try.sh ID [checks]: confirm a planted bug in a private copy of /repo (bind-mounted over /repo in a namespace of its own):
# demo passes without the patch; patch applies, builds, passes the stable tests; demo fails with it; check catches it.
ID=$1; W=/tmp/seedrepo; S=/verif/seeded/$ID
[ -d $W ] || cp -a /repo $W
git -C $W fetch -q /repo HEAD && git -C $W checkout -q -f FETCH_HEAD || exit 9
cat > /tmp/seedrun.sh <<'X'
ID=$1; S=/verif/seeded/$ID; W=/tmp/seedrepo
mount --bind $W /repo || exit 9
cd /repo
bash /opt/vp/build.sh >/tmp/seed_b.log 2>&1 || { echo "base build failed"; exit 9; }
L=$(mktemp -d); cp -r $S/* $L; rm -f $L/*.diff $L/meta.json
bash $L/demo.sh >/tmp/seed_d0.log 2>&1; echo "demo unpatched: $?"
git apply $S/patch.diff || { echo "patch does not apply"; exit 9; }
bash /opt/vp/test.sh /tmp/seed_t.json >/tmp/seed_t.log 2>&1 || true
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/seed_t.json'))
print('stable tests broken:', [x for x in b if x not in r['passed']])
P
bash $L/demo.sh >/tmp/seed_d1.log 2>&1; echo "demo patched: $?"
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
if [ -z "$2" ]; then
mkdir -p /tmp/seedverif; rsync -a --delete --exclude .git --exclude seeded /verif/ /tmp/seedverif/ 2>/dev/null || cp -a /verif/. /tmp/seedverif/
mount --bind /tmp/seedverif /verif
cd /verif
t0=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $P --tier quick >/tmp/seed_c.log 2>&1; rc=$?
echo "check $P: rc=$rc $(grep -m1 -a VIOLATION /tmp/seed_c.log) [$(( $(date +%s)-t0 ))s]"
fi
cd /repo; git checkout -q -- .
rm -rf $L
X
unshare -Urm bash /tmp/seedrun.sh "$@"
