#!/bin/bash
# grouptest.sh ID...: applies the planted bugs together to /repo, runs the stable tests, undoes them.
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
for i in "$@"; do git apply /verif/seeded/$i/patch.diff || { echo "no apply $i"; git checkout -- .; exit 1; }; done
bash /opt/vp/test.sh /tmp/grouptest.json > /tmp/grouptest.log 2>&1
git checkout -- .
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
d=json.load(open('/tmp/grouptest.json'))
p=set(d.get('passed',[]))
print('not passing:',[x for x in b if x not in p])
P
