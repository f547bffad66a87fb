#!/bin/bash
# bash tools/seedtest.sh <seed id>: confirm a planted change (tests pass, demo flips) in a scratch copy,
# then run the property's check against it with VERIF_REPO pointing at that copy.
V=$(cd "$(dirname "$0")/.." && pwd); id=$1; S=$V/seeded/$id; W=/tmp/seedw_$id
export HOME=/root PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
rm -rf "$W"; cp -a /repo "$W"
cd "$W" || exit 1
bash $S/demo.sh >/tmp/seed_$id.clean 2>&1; a=$?
git apply $S/patch.diff || { echo "$id: patch does not apply"; exit 1; }
bash $S/demo.sh >/tmp/seed_$id.bug 2>&1; b=$?
PYTHONPATH=$W /opt/venv/bin/python -m pytest -q -p no:cacheprovider -o addopts= --continue-on-collection-errors -o junit_family=xunit2 --junitxml=/tmp/seed_$id.xml tests >/tmp/seed_$id.tests 2>&1
t=$(/usr/bin/python3 - /tmp/seed_$id.xml <<'P'
import json,sys,xml.etree.ElementTree as E
ok={c.get('classname')+'::'+c.get('name') for c in E.parse(sys.argv[1]).getroot().iter('testcase') if not any(k.tag in('failure','error','skipped') for k in c)}
m=[s for s in json.load(open('/opt/vp/BASELINE.json'))['stable'] if s not in ok]
print('ok' if not m else 'FAIL '+str(m))
P
)
prop=$(/usr/bin/python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd "$V"
VERIF_REPO=$W bash check.sh $prop >/tmp/seed_$id.check 2>&1; c=$?
echo "$id: prop=$prop demo clean=$a bug=$b tests=$t check=$c $(grep -a 'is violated' /tmp/seed_$id.check | head -c 160)"
rm -rf "$W"
