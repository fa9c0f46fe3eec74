#!/bin/bash
# seedrun.sh ID : runs the property's quick check against /repo with the planted bug applied, then undoes it
V="$(cd "$(dirname "$0")/.." && pwd)"
P=$(python3 -c "import json;print(json.load(open('$V/seeded/$1/meta.json'))['property'])")
git -C /repo apply "$V/seeded/$1/patch.diff" || exit 2
( cd "$V" && VERIF_SEED=${VERIF_SEED:-1} bash check.sh $P ${2:-quick} 2>&1 | tail -3 | cut -c1-400 )
git -C /repo checkout -- .
