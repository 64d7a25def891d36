#!/bin/bash
# developer helper: extract and run the verifier on /repo; extra args go to verus
set -e
W=${W:-/tmp/v/w}
mkdir -p $W
/verif/target/extract/release/extract ${SRC:-/repo/gift/src} ${CON:-/verif/contracts} $W/gift.rs ${EX}
cd $W && verus --edition 2024 gift.rs "$@" 2>&1
