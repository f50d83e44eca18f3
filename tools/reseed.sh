#!/bin/bash
# re-create the patches of seeded bugs that no longer apply exactly (context moved)
for d in /verif/seeded/*/; do
  id=$(basename $d)
  git -C /repo apply --check $d/patch.diff 2>/dev/null && continue
  t=$(mktemp -d /tmp/reseed.XXXX); git -C /repo worktree add -q --detach $t HEAD
  if git -C $t apply -C1 $d/patch.diff 2>/dev/null || (cd $t && patch -p1 -F3 -s < $d/patch.diff); then
    git -C $t diff > $d/patch.diff; echo "$id rebased"; else echo "$id FAILED"; fi
  git -C /repo worktree remove --force $t
done
