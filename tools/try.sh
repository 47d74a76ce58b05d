#!/bin/bash
# try.sh ID [PROP...]: applies a planted bug to /repo, runs the checks named (default: its own), undoes it.
id=$1; shift
p=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
git -C /repo apply /verif/seeded/$id/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
for x in $p; do s=$(date +%s); o=$(bash /verif/tools/check.sh $x $OPTS 2>&1); c=$?; echo "$id $x exit=$c $(( $(date +%s) - s ))s $(echo "$o" | grep -v '^VIOLATION' | head -1 | cut -c1-${CUT:-220})"; done
