#!/bin/bash
# tools/seedtest.sh <seed id> [notest]: confirm a planted bug (builds, stable tests pass, demo 0/nonzero) and run its property's check.
D=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 9
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 9; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/tmp/seed.b 2>&1; bash $D/demo.sh >/tmp/seed.d0 2>&1; r0=$?
git apply $D/patch.diff || exit 8
bash /opt/vp/build.sh >/tmp/seed.b 2>&1; rb=$?
bash $D/demo.sh >/tmp/seed.d1 2>&1; r1=$?
if [ "$2" != notest ]; then
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.t 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/seed.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(o['passed']); print("stable tests broken:",m or "none")
P
fi
(cd /verif && python3 check.py $P >/tmp/seed.c 2>&1); rc=$?
echo "$1 [$P]: demo clean=$r0 build=$rb demo patched=$r1 check exit=$rc"; grep -v "^$P:" /tmp/seed.c | grep -v KNOWN | head -4
