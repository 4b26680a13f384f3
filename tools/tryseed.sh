#!/bin/bash
# tryseed.sh ID...: runs each demo on a clean copy and on a patched copy of /repo.
for i in "$@"; do
  for k in clean patched; do
    d=/tmp/try.$i.$k; mkdir -p $d; git -C /repo archive HEAD | tar x -C $d
    if [ $k = patched ]; then (cd $d && patch -s -p1 < /verif/seeded/$i/patch.diff) || echo PATCHFAIL; fi
    s=$(date +%s); (cd $d && timeout 300 bash /verif/seeded/$i/demo.sh > /tmp/try.$i.$k.log 2>&1); rc=$?
    echo "$i $k rc=$rc $(( $(date +%s) - s ))s"
    rm -r /tmp/try.$i.$k
  done
done
