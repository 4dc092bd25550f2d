#!/bin/bash
# replay.sh <counterexample.json>: run a reported counterexample against the real code.
set -eu
V="$(cd "$(dirname "$0")/.." && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
"$V/scripts/setup.sh"
exec "$V/bin/symgo" -verif "$V" -replay "$1" "$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$1")"
