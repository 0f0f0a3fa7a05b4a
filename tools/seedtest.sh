#!/bin/bash
# seedtest.sh ID [nobuild]: confirm a planted bug: demo passes without it; with it: build, stable tests, demo fails, check reports
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --short)" ] || { echo "/repo not clean"; exit 1; }
undo() { git -C /repo checkout -q -- .; }
trap undo EXIT
out=/tmp/seedtest; mkdir -p $out
if [ "${2:-}" != check ]; then
( cd /repo && bash $d/demo.sh >$out/demo0.txt 2>&1 ); echo "$id demo unchanged: $? (want 0)"
git -C /repo apply $d/patch.diff || { echo "patch does not apply"; exit 1; }
bash /opt/vp/build.sh >$out/build.txt 2>&1; echo "$id build: $?"
bash /opt/vp/test.sh $out/t.json >/dev/null 2>&1
python3 - $out/t.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
def ok(d):
    for k in ('passed','pass','passing','stable','tests'):
        if k in d and isinstance(d[k],list): return set(d[k])
    return {k for k,v in d.get('results',d).items() if v in ('pass','passed',True)}
miss=ok(b)-ok(t); print('stable tests lost:',len(miss),sorted(miss)[:4])
P
( cd /repo && timeout 300 bash $d/demo.sh >$out/demo1.txt 2>&1 ); echo "$id demo changed: $? (want nonzero)"; grep -aE "panicked|FAIL|assert|error" $out/demo1.txt | head -5
else
git -C /repo apply $d/patch.diff || exit 1
fi
cd /verif; VERIF_SEED=${SEED:-1} VERIF_TIER=quick bash check.sh $prop >$out/check.txt 2>&1; echo "$id check $prop: $? (want 1)"; grep -a VIOLATION $out/check.txt | cut -c1-300
