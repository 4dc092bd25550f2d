#!/bin/bash
# setup.sh: build the symbolic executor (offline; vendored sources in the module cache).
set -eu
V="$(cd "$(dirname "$0")/.." && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p "$V/bin" "$V/evidence"
cd "$V/engine"
if [ ! -x "$V/bin/symgo" ] || [ -n "$(find . -name '*.go' -newer "$V/bin/symgo" | head -1)" ]; then
  go build -o "$V/bin/symgo.$$" . && mv "$V/bin/symgo.$$" "$V/bin/symgo"
fi
