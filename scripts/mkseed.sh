#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what it breaks": writes seeded/ID from the edits in the scratch tree
# $S (default /tmp/seed) and main.go beside this call ($S.main.go); verifies demo on both trees.
set -eu
V=/verif; S=${S:-/tmp/seed}; id=$1
. /opt/vp/env.sh
D=$V/seeded/$id; mkdir -p "$D"
git -C "$S" diff > "$D/patch.diff"
[ -n "${LIB-1}" ] && cp $V/scripts/demolib/lib.go "$D/lib.go"
cp $V/scripts/demolib/demo.sh "$D/demo.sh"
cp "$S.main.go" "$D/main.go"
[ -d "$S.shim" ] && { mkdir -p "$D/shim"; cp -r "$S.shim/." "$D/shim/"; }
python3 - "$2" "$3" "$4" > "$D/meta.json" <<'P'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
gofmt -w "$D"
(cd /repo && bash "$D/demo.sh" >/tmp/demo.ok 2>&1) && echo "unchanged: fine" || { echo "DEMO FAILS ON UNCHANGED"; tail -20 /tmp/demo.ok; }
(cd "$S" && bash "$D/demo.sh" >/tmp/demo.bad 2>&1) && { echo "DEMO PASSES WITH PATCH"; tail -20 /tmp/demo.bad; } || { echo "patched: $(tail -1 /tmp/demo.bad)"; }
