#!/bin/bash
# dev helper: extract and verify; extra args go to verus
cd /verif; mkdir -p build/gen; for g in gen/*.py; do python3 $g || exit 1; done
./vx/target/debug/vx --src ${SRC:-/repo/src} --out build/out.rs --report build/rep.json $EXTRA contracts/*.vc build/gen/*.vc || exit 1
verus build/out.rs "$@" > build/verus.log 2>&1
grep -E "^(error|note: verif|verification)" build/verus.log | sort | uniq -c | sort -rn | head -${N:-40}
