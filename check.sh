#!/bin/bash
# check.sh ID quick|thorough      build the monitors against /repo's working tree and run one property's check
# check.sh ID replay FILE         re-run the case recorded in a replay file
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
cd "$ROOT" || exit 2
. ./env.sh
build || { echo "BUILD FAILED"; exit 2; }
if [ "${2:-}" = replay ]; then
  read -r tier seed case < <(python3 -c 'import json,sys; d=json.load(open(sys.argv[1])); print(d["tier"], d["seed"], d["case"])' "$3")
  exec "$MON" case "$1" "$tier" "$seed" "$case" > /dev/null
fi
exec "$MON" run "$1" "${2:-quick}" "$ROOT"
