#!/bin/bash
# Builds every harness crate once (the checks build incrementally afterwards).
. "$(dirname "$(readlink -f "$0")")/env.sh"
rc=0
for c in core idx orc cli wal; do
  [ -f "$HERE/harness/$c/Cargo.toml" ] || continue
  build_crate $c || rc=2
done
exit $rc
