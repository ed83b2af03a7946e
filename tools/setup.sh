#!/bin/bash
# builds the harness crates in every variant the checks use, so that a check only rebuilds what changed in /repo
set -eu
HERE="$(cd "$(dirname "$0")/.." && pwd)"
. "$HERE/tools/env.sh"
. "$HERE/tools/build.sh"
mkdir -p "$HERE/evidence" "$HERE/target/log"
for v in plain asan tsan; do vbuild $v te "$HERE/target/log/setup-$v-te.log" || { tail -40 "$HERE/target/log/setup-$v-te.log"; exit 1; }; done
vbuild plain ql "$HERE/target/log/setup-plain-ql.log" || { tail -40 "$HERE/target/log/setup-plain-ql.log"; exit 1; }
