#!/bin/bash
# run.sh ID              build from /repo's working tree and decide property ID
# run.sh --replay ID F   run one recorded case
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && source /opt/vp/env.sh
export VERIF_DIR=$PWD
TIER=${VERIF_TIER:-quick}
build() { # target dir, extra arguments
  local t=$1; shift
  local log; log=$(mktemp)
  if ! (cd harness && CARGO_TARGET_DIR=$t cargo build --offline -q "$@") >"$log" 2>&1; then
    grep -E '^error' -A12 "$log" | head -60 >&2; rm -f "$log"; echo "build failed" >&2; exit 2
  fi
  rm -f "$log"
}
ID=$1; [ "$ID" = --replay ] && ID=$2
if [ "$ID" = P40 ]; then # the crate without the standard library and allocator
  build "$PWD/target-bare" --no-default-features
  exec "$PWD/target-bare/debug/vcheckbin" "$@"
fi
build "$PWD/target"
BIN=$PWD/target/debug/vcheckbin
if [ "$ID" = P02 ]; then
  build "$PWD/target-paranoid" --features paranoid
  export VERIF_OTHER_BIN=$PWD/target-paranoid/debug/vcheckbin
fi
if [ "$TIER" = thorough ] && [ "$1" != --replay ] && [ "$ID" != P36 ]; then # then the coverage-guided search
  "$BIN" "$@" || exit $?
  exec tools/fuzz.sh "$ID"
fi
exec "$BIN" "$@"
