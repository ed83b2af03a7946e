#!/bin/bash
# check.sh ID [--thorough] [--replay PATH]: rebuild the harness against /repo's working tree and run the monitor of one property
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
ID="${1:?property id}"; shift
. "$HERE/tools/env.sh"
. "$HERE/tools/build.sh"
case "$ID" in
  C0*|C1*) H=te ;;
  *) H=ql ;;
esac
mkdir -p "$HERE/target/log" "$HERE/evidence"
need() { # need VARIANT CRATE
  local log="$HERE/target/log/build-$1-$2-$ID.log"
  if ! BIN="$(vbuild "$1" "$2" "$log")"; then
    echo "HARNESS-ERROR: harness ($1) does not build against /repo" >&2; grep -A12 "^error" "$log" | head -60 >&2; exit 2
  fi
}
case "$ID" in
  C05) need asan te; export TE_ASAN="$BIN" ;;
  C10) need tsan te; export TE_TSAN="$BIN" ;;
  C09) need asan te; export TE_ASAN="$BIN"; need tsan te; export TE_TSAN="$BIN" ;;
esac
need plain "$H"
export VERIF_ROOT="$HERE"
exec "$BIN" "$ID" "$@"
