#!/bin/bash
# compile all demos at once and run each on the clean tree
d=/tmp/combo; rm -rf /tmp/combo; mkdir -p $d; cp /verif/tools/seed/mk.py $d/
{ cat /verif/tools/seed/common.rs; 
for f in /verif/tools/seed/bugs/*.rs; do n=$(basename $f .rs | tr - _); echo "pub mod $n { use super::*;"; cat $f; echo "}"; done
echo "pub fn demo() -> bool {"; for f in /verif/tools/seed/bugs/*.rs; do n=$(basename $f .rs | tr - _); echo "println!(\"$n {:?}\", std::panic::catch_unwind($n::demo));"; done; echo "true }"; } > $d/demo.rs
cd ${1:-/repo}; python3 $d/mk.py
