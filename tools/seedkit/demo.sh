#!/bin/bash
# builds the part of /repo that builds here in a scratch directory, with demo.rs as one more test of @CRATE@, and runs it
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
s=$(mktemp -d /tmp/demo.XXXXXX) || exit 1
trap 'rm -rf "$s"' EXIT
mkdir -p "$s/ws"
cp -a /opt/vp/target "$s/target" 2>/dev/null
sed -e "s#\"/opt/vp/ws\"#\"$s/ws\"#" /opt/vp/ws/mkws.py >"$s/mkws.py" && python3 "$s/mkws.py" || exit 1
export CARGO_TARGET_DIR=$s/target TMPDIR=$s
cd "$s/ws" || exit 1
m=$(dirname "$(grep -lE '^name = "@CRATE@"' crates/*/Cargo.toml bin/*/Cargo.toml)")
[ ! -L "$m" ] || { cp -rL "$m" "$s/m" && rm "$m" && mv "$s/m" "$m"; }
mkdir -p "$m/tests"; cp "$here/demo.rs" "$m/tests/demo.rs"
timeout 280 cargo test --offline -p @CRATE@ --test demo -- --test-threads 4
