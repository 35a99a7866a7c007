#!/bin/bash
# seed.sh ID [CHECK...]: verifies /verif/seeded/ID against /repo: demo on the clean build, patch, build, stable tests, demo,
# checks of the property (or the given ones), revert.  Leaves /repo's tracked files and build as found.
ID=$1; shift
S=/verif/seeded/$ID
CH=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
cd /repo && git diff --quiet || { echo "repo dirty"; exit 2; }
bash $S/demo.sh >/tmp/seedwork/$ID.clean 2>&1; echo "demo clean: $?"
git apply $S/patch.diff || exit 2
bash /opt/vp/test.sh /tmp/seedwork/$ID.json >/tmp/seedwork/$ID.build 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seedwork/$ID.json'))
p=b.get('passed') or b.get('stable') or b
p=[x if isinstance(x,str) else x.get('name') for x in p]
m=[x for x in p if x not in set(t['passed'])]
print('tests: %d passed, missing from baseline: %d %s'%(len(t['passed']),len(m),m[:6]))
P
bash $S/demo.sh >/tmp/seedwork/$ID.bad 2>&1; echo "demo patched: $?"
cd /verif
for c in $CH; do python3 check.py $c --tier quick 2>&1 | tail -3 | cut -c1-300; done
git -C /repo checkout -- .
