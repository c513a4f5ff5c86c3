#!/bin/bash
# trybug.sh ID [PROPERTY...]: runs checks with a planted bug applied to /repo, and undoes it
cd "$(dirname "$0")/.." || exit 2
id=$1; shift
props=${*:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
git -C /repo apply "$PWD/seeded/$id/patch.diff" || exit 2
for p in $props; do echo "== $id $p"; python3 harness/run.py $p | cut -c1-300; done
git -C /repo checkout -- .
