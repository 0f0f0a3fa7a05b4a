#!/bin/bash
# seeddemo.sh ID: the demonstration on the tree as it is and with the change, in /tmp/wt (quick: no stable tests)
id=$1; d=/verif/seeded/$id
. /opt/vp/env.sh
s=/tmp/seeds/demo; mkdir -p $s/ws; [ -d $s/target ] || cp -a /opt/vp/target $s/target
sed -e "s#\"/opt/vp/ws\"#\"$s/ws\"#;s#\"/repo\"#\"/tmp/wt\"#g" /opt/vp/ws/mkws.py >$s/mkws.py
c=$(grep -o 'name = "[a-z-]*"' $d/demo.sh | head -1 | cut -d'"' -f2)
export CARGO_TARGET_DIR=$s/target
run() {
 python3 $s/mkws.py >/dev/null || return 9
 cd $s/ws
 m=$(dirname "$(grep -lE "^name = \"$c\"" crates/*/Cargo.toml bin/*/Cargo.toml)")
 [ ! -L "$m" ] || { cp -rL "$m" $s/m && rm "$m" && mv $s/m "$m"; }
 mkdir -p $m/tests; cp $d/demo.rs $m/tests/demo.rs
 timeout 280 cargo test --offline -p $c --test demo -- --test-threads 4 2>&1 | tail -${TAIL:-12}; r=${PIPESTATUS[0]}; rm -f $m/tests/demo.rs; return $r
}
run; echo "== $id unchanged: $? (want 0)"
git -C /tmp/wt apply $d/patch.diff || exit 1
run; echo "== $id changed: $? (want nonzero)"
git -C /tmp/wt checkout -q -- .
