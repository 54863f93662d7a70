#!/bin/bash
# Builds every check offline from the committed files and /repo's working tree.
cd "$(dirname "$(readlink -f "$0")")/harness" || exit 2
. ./env.sh
args=()
for bin in "$@"; do args+=(-p "$bin"); done
exec cargo build --offline --locked -q "${args[@]}"
