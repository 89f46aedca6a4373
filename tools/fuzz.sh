#!/bin/bash
# fuzz.sh ID   coverage-guided search over the choice tapes of property ID (thorough tier), after the
#              random search of the same property has passed. libFuzzer mutates the tape of a case;
#              the oracle is the property's own. A failing tape goes back to the harness, which shrinks
#              it, writes the replay file and prints the VIOLATION line.
cd "$(dirname "$0")/.." || exit 2
ID=$1
SECS=${VERIF_FUZZ_SECS:-240} JOBS=${VERIF_JOBS:-8}
BIN=$PWD/target/debug/vcheckbin
T=$PWD/target-fuzz
log=$(mktemp)
if ! (cd fuzz && RUSTFLAGS="--cfg fuzzing -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares" \
     CARGO_TARGET_DIR=$T cargo build --offline -q --target x86_64-unknown-linux-gnu) >"$log" 2>&1; then
  grep -E '^error' -A12 "$log" | head -60 >&2; rm -f "$log"; echo "fuzz build failed" >&2; exit 2
fi
rm -f "$log"
D=$(mktemp -d); trap 'rm -rf -- "$D"' EXIT
mkdir "$D/corpus"
"$BIN" --fuzz-seeds "$ID" "$D/corpus" 300 || exit 2
for i in $(seq "$JOBS"); do
  VFUZZ_ID=$ID VFUZZ_STATS=$D/st$i VFUZZ_OUT=$D/out$i "$T/x86_64-unknown-linux-gnu/debug/vfuzz" "$D/corpus" \
    -max_total_time="$SECS" -len_control=0 -max_len=8192 -reload=1 -seed="$((${VERIF_SEED:-1} * 100 + i))" -artifact_prefix="$D/" >"$D/log$i" 2>&1 &
done
wait
for f in "$D"/out*; do
  [ -e "$f" ] || continue
  "$BIN" --tape "$ID" "$f" || exit $?
done
# a fuzzer that ended before its time without a failing case is no answer
for i in $(seq "$JOBS"); do
  grep -q '^Done ' "$D/log$i" || { tail -5 "$D/log$i" >&2; echo "fuzzer $i ended early" >&2; exit 2; }
done
"$BIN" --add-extra "$ID" fuzz_executions "$(cat "$D"/st* 2>/dev/null | awk '{s+=$1} END {print s+0}')" &&
"$BIN" --add-extra "$ID" fuzz_nontrivial "$(cat "$D"/st* 2>/dev/null | awk '{s+=$2} END {print s+0}')" &&
"$BIN" --add-extra "$ID" fuzz_corpus "$(ls "$D/corpus" | wc -l)"
