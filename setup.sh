#!/bin/bash
# build every harness once; later checks rebuild only what changed
set -eu
cd "$(dirname "$0")"
. tools/env.sh
mkdir -p .build evidence
python3 tools/mkws.py
cd .build/ws
for c in $(awk '{print $2}' ../../tools/checks.txt | sort -u); do
  cargo build --offline --locked -q -p "$c" >"../build-$c.log" 2>&1 || { tail -40 "../build-$c.log"; exit 1; }
done
