#!/bin/bash
# every check on the current tree (in parallel), one line each
cd "$(dirname "$0")/.."
ids=$(/opt/venv/bin/python -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")
printf '%s\n' $ids | xargs -P 6 -I{} sh -c './check.sh {} > /tmp/all.{}.log 2>&1; echo "{} rc=$? $(tail -1 /tmp/all.{}.log | grep -o "in [0-9.]*s")"' | sort
