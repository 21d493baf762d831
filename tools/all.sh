#!/bin/bash
# all.sh [TIER] [PROP...]: every check one after another on /repo (or $SX_REPO); one line each.
. /opt/vp/env.sh
cd "$(dirname "$0")/.."
tier=${1:-quick}; shift
[ $# = 0 ] && set -- $(python3 -c "import json;print(*[json.loads(l)['id'] for l in open('properties.jsonl')])")
for p in "$@"; do
    s=$(date +%s); PYTHONDONTWRITEBYTECODE=1 $PY run.py $p --tier $tier > /tmp/all.$p.out 2>&1; c=$?
    echo "$p exit $c $(($(date +%s)-s))s $(grep -c INCONCL /tmp/all.$p.out) inconclusive; $(tail -1 /tmp/all.$p.out | cut -c1-160)"
done
