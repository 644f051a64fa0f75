#!/bin/bash
# runs every claimed check (8 at a time) and prints one line per check: all.sh [tier] [ids...]
cd "$(dirname "$0")/.."
tier=${1:-quick}; shift
ids=${*:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}
printf '%s\n' $ids | xargs -P 8 -I{} sh -c 'timeout 900 python3 -m sa.check --property {} --tier '$tier' > /tmp/all.{}.out 2>&1; echo "{} rc=$? $(grep -a obligations /tmp/all.{}.out | tail -1) $(grep -a VIOLATION /tmp/all.{}.out)"' | sort
