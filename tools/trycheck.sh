#!/bin/bash
# trycheck.sh PROP ID...: runs the check PROP on copies of /repo with each planted bug.
export VERIF_BUILD=/tmp/tcb
p=$1; shift
for i in "$@"; do
  pp=$p; [ $p = own ] && pp=$(python3 -c "import json;print(json.load(open('${SEEDS:-/verif/seeded}/$i/meta.json'))['property'])")
  d=/tmp/tc; rm -rf /tmp/tc.new; mkdir -p /tmp/tc.new $d; git -C /repo archive HEAD | tar x -C /tmp/tc.new
  (cd /tmp/tc.new && patch -s -p1 < ${SEEDS:-/verif/seeded}/$i/patch.diff); rsync -rc --delete /tmp/tc.new/ $d/ 2>/dev/null || { rm -rf $d; mv /tmp/tc.new $d; }
  s=$(date +%s); ZKEVM_REPO=$d python3 /verif/run.py $pp > /tmp/tc.$i.log 2>&1; rc=$?
  echo "$i $pp rc=$rc $(( $(date +%s) - s ))s $(grep -c 'failed obl' /tmp/tc.$i.log) $(grep VIOLATION /tmp/tc.$i.log)"
done
