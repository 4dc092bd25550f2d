#!/bin/bash
# check.sh <property> [quick|thorough]: decide one property against /repo's working tree.
set -u
V="$(cd "$(dirname "$0")/.." && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
"$V/scripts/setup.sh" >/dev/null || { echo "cannot build the engine" >&2; exit 2; }
exec "$V/bin/symgo" -verif "$V" -tier "${2:-quick}" "$1"
