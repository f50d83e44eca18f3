#!/bin/bash
# trybug.sh ID...: run each seeded bug's check (or all checks with ALL=1) against a scratch copy with the patch applied
one() {
  id=$1; d=/tmp/tb/$id; mkdir -p /tmp/tb; rm -rf "/tmp/tb/$id"; mkdir -p $d/ev
  git -C /repo archive HEAD | tar -x -C $d
  (cd $d && git init -q . && git apply /verif/seeded/$id/patch.diff) || { echo "$id: patch does not apply"; return; }
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  list=${prop,,}; [ -n "$ALL" ] && list=$(ls /verif/checks | sed 's/.py//')
  for c in $list; do
   (cd /verif; VERIF_REPO=$d VERIF_EVIDENCE=$d/ev /opt/minorminer-venv/bin/python checks/$c.py > $d/out 2>&1; rc=$?
   [ "$c" = "${prop,,}" -o $rc != 0 ] && echo "$id ($prop) by $c: rc=$rc $(grep -c FAILED $d/out) failed: $(grep -m1 FAILED $d/out | cut -c1-${W:-230})"; [ $rc = 2 ] && tail -3 $d/out)
  done
  rm -rf "/tmp/tb/$id"
}
export -f one
printf '%s\n' "$@" | xargs -P 6 -I{} bash -c 'one {}'
