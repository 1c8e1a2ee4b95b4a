#!/bin/bash
# dev: generate + extract once, verify the given modules (default all) in parallel; logs in build/log/<module>.log
cd /verif; mkdir -p build/gen build/log; for g in gen/*.py; do python3 $g || exit 1; done
./vx/target/debug/vx --src ${SRC:-/repo/src} --out build/out.rs --report build/rep.json $EXTRA contracts/*.vc build/gen/*.vc || exit 1
M="${*:-model vx vxp rt rtp codec codec::decode codec::encode types types::symbol types::variant framing io errors protocol protocol::definitions message::body message::inmessage message::outmessage}"
for m in $M; do echo $m; done | xargs -P 8 -I{} sh -c 'timeout 900 verus build/out.rs --verify-only-module {} $VARGS > build/log/{}.log 2>&1; echo {} $(grep -c ^error build/log/{}.log) $(grep "verification results" build/log/{}.log)'
for m in $M; do grep -q '^error' build/log/$m.log && { echo "== $m"; cp build/log/$m.log build/verus.log; tools/errs.py ${N:-20} $V | cut -c1-180; }; done
