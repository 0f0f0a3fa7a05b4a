#!/bin/bash
# mkseed.sh ID PROPERTY CRATE "needs" "breaks": capture /repo's working-tree change as seeded/ID and undo it.
# The demonstration (a test) is read from stdin. CRATE: a package of the stable workspace, or "ws:PKG[,PKG]" for a demo over the wider one
set -eu
id=$1 prop=$2 crate=$3; d=/verif/seeded/$id; mkdir -p $d
git -C ${REPO:-/repo} diff >$d/patch.diff; [ -s $d/patch.diff ]; git -C ${REPO:-/repo} checkout -q -- .
cat >$d/demo.rs
ID=$id PROP=$prop NEEDS="$4" BREAKS="$5" python3 - >$d/meta.json <<'P'
import json,os
e=os.environ
print(json.dumps({"property":e['PROP'],"needs":e['NEEDS'],"what_it_breaks":e['BREAKS']},indent=1))
P
case $crate in
ws:*) bash /verif/tools/seedkit/wide.sh $d ${crate#ws:};;
*) sed "s/@CRATE@/$crate/" /verif/tools/seedkit/demo.sh >$d/demo.sh;;
esac
