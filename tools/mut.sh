#!/bin/bash
# mut.sh CRATE ID FILE [args] < "old\n====\nnew": try one change of /repo against one check, and undo it
crate=$1 id=$2 file=$3; shift 3
cat > /tmp/mut.in
python3 - "$file" <<'P' || exit 2
import sys
import os; p=os.environ.get('VERIF_REPO','/repo')+'/'+sys.argv[1]; s=open(p).read(); o,n=(open('/tmp/mut.in').read().rstrip('\n')+'\n').split('\n====\n'); n=n.rstrip('\n')
if s.count(o)!=1 and not (s.count(o) and os.environ.get('FIRST')): print('MUT: matches',s.count(o)); sys.exit(2)
open(p,'w').write(s.replace(o,n,1))
P
TAIL=${TAIL:-5} bash /verif/tools/run.sh $crate $id "$@"
git -C ${VERIF_REPO:-/repo} checkout -q -- .
