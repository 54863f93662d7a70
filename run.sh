#!/bin/bash
# run.sh <binary> <property> [thorough]: builds a check from /repo's working tree and runs it.
# Exit 0 held, 1 violated, anything else no answer.
cd "$(dirname "$(readlink -f "$0")")/harness" || exit 2
. ./env.sh
if ! cargo build --offline --locked -q -p "$1" >"/tmp/build-$1-$$.log" 2>&1; then
  cat "/tmp/build-$1-$$.log"; rm -f "/tmp/build-$1-$$.log"
  echo "$2: the check does not build against /repo"
  exit 2
fi
rm -f "/tmp/build-$1-$$.log"
[ "$3" = thorough ] && export VERIF_TIER=thorough
exec "$CARGO_TARGET_DIR/debug/$1" "$2"
