#!/bin/bash
# valseed.sh ID...: in a scratch copy bind-mounted over /repo (private namespace): apply, build, demo must fail, stable tests must pass
for id in "$@"; do
  d=/tmp/val/$id; rm -rf "/tmp/val/$id"; mkdir -p /tmp/val; cp -a /repo "$d"
  res=$(unshare -Urm bash -c "
    mount --bind $d /repo; cd /repo
    bash /verif/seeded/$id/demo.sh >/tmp/val/$id.demo0 2>&1; echo demo-clean=\$?
    git apply /verif/seeded/$id/patch.diff || { echo NOAPPLY; exit; }
    bash /opt/vp/test.sh /tmp/val/$id.json > /tmp/val/$id.log 2>&1
    python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/val/$id.json'))
m=[x for x in b if x not in r['passed']]
print('tests-missing=%d %s'%(len(m),m[:3]))
P
    bash /verif/seeded/$id/demo.sh >/tmp/val/$id.demo1 2>&1; echo demo-bug=\$?" | tr '\n' ' ')
  echo "$id: $res" | tee -a /tmp/val/results.txt
  rm -rf "/tmp/val/$id"
done
