#!/bin/bash
# check.sh ID [--only SUB] [--replay FILE]: rebuild what the property needs from /repo's current tree, run its check
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
. tools/env.sh
export VERIF_DIR=$here
id=$1
crate=$(awk -v id="$id" '$1==id{print $2}' tools/checks.txt)
[ -n "$crate" ] || { echo "no check for $id" >&2; exit 2; }
mkdir -p .build evidence
log=.build/build-$crate.log
(
  flock 9
  python3 tools/mkws.py && cd .build/ws && cargo build --offline --locked -q -p "$crate" >"../build-$crate.log" 2>&1
) 9>.build/lock || { tail -40 "$log" >&2; echo "cannot build $crate" >&2; exit 2; }
exec "$CARGO_TARGET_DIR/debug/$crate" "$@"
