#!/bin/bash
# usage: seed.sh <id> <property> <needs> <what>   -- with the planted change in /repo's working tree (uncommitted),
# seeded/<id>/prog.yisp present (or an own demo.sh). Records patch.diff, want.txt, meta.json and confirms the seed.
set -e
id=$1 prop=$2; d=/verif/seeded/$id; mkdir -p "$d"
[ -f "$d/demo.sh" ] || cp /verif/tools/demo-template.sh "$d/demo.sh"
git -C /repo diff > "$d/patch.diff"; [ -s "$d/patch.diff" ]
python3 - "$@" <<'P' > "$d/meta.json"
import json,sys
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
P
git -C /repo checkout -q -- .
/verif/tools/seedcheck.sh "$id"
