#!/bin/sh
# offline: the extractor and the replay harness (a check rebuilds both when they are missing)
cd "$(dirname "$0")/.." || exit 1
(cd vx && cargo build --offline -q) || exit 1
(cd replay && cargo build --offline -q) || true
verus --version >/dev/null || exit 1
