#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what it breaks" < sed-like python edit on stdin (cwd /repo), demo in $DEMO
# Edits /repo through the python program on stdin, stores the diff, reverts.
set -e
id=$1; prop=$2; d=/verif/seeded/$id; mkdir -p "$d"
cd /repo; test -z "$(git status --porcelain)"
python3 - 
git diff > "$d/patch.diff"; git checkout -q -- .
test -s "$d/patch.diff"
python3 - "$prop" "$3" "$4" > "$d/meta.json" <<'P'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
