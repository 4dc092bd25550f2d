#!/bin/bash
# Runs the demonstration program against the code in the current directory.
D="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
R="$(pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
python3 - "$D" "$R" > "$T/overlay.json" <<'P'
import json, sys, glob, os
d, r = sys.argv[1:]
m = {os.path.join(r, "zzdemo", os.path.basename(f)): f for f in glob.glob(d + "/*.go")}
for f in glob.glob(d + "/shim/**/*.go", recursive=True):   # access to unexported names: shim/PACKAGE/FILE.go
    m[os.path.join(r, os.path.relpath(f, d + "/shim"))] = f
print(json.dumps({"Replace": m}))
P
export MOCO_CHECK_INTERVAL=50ms MOCO_CLONE_WAIT_DURATION=50ms MOCO_ROLE_WAIT_DURATION=10ms
go build -overlay "$T/overlay.json" -o "$T/demo" ./zzdemo || exit 0   # a tree the demonstration does not fit says nothing
timeout 120 "$T/demo"
