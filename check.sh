#!/bin/bash
# check.sh <property> <quick|thorough> [--case part:num]
# Builds the harness against /repo's current working tree and explores the property.
# Exit 0: held on everything explored. Exit 1 + VIOLATION line: violated. Exit 2: no answer (does not build).
V="$(cd "$(dirname "$0")" && pwd)"
P="$1"; T="${2:-quick}"; shift; [ $# -gt 0 ] && shift
export RUST_BACKTRACE=0 VERIF_DIR="$V" CARGO_TARGET_DIR="$V/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
BINS= PROFILE=release
case "$P" in
    P14|P15|P16|P17) CRATE=mc BIN=low ;;
    P30) PROFILE=checked CRATE=mc BIN=mc ;;
    P31) CRATE=mp BIN=mp ;;
    P19) CRATE=xp BIN=xp BINS="--bin csv2bin" ;;
    P20) CRATE=xp BIN=xp BINS="--bin collect-stats" ;;
    P23|P29) CRATE=xp BIN=xp BINS="--bin experimenter" ;;
    P21|P22|P24|P25) CRATE=xp BIN=xp ;;
    *) CRATE=mc BIN=mc ;;
esac
mkdir -p "$V/evidence/replay" "$V/target"
LOG="$V/evidence/build-$P.log"
build() {
    cargo build --profile $PROFILE --offline --locked --manifest-path "$V/$CRATE/Cargo.toml" --bin "$BIN" $BINS || return 1
    # keeps the experimenter away from /proc/sys and sync(2)
    case "$P" in P23|P29) ;; *) return 0 ;; esac
     cc -shared -fPIC -O1 -o "$V/target/xp-shim.so" "$V/xp/shim.c" -ldl
}
if ! build >"$LOG" 2>&1; then
    tail -n 40 "$LOG"
    echo "check.sh: the harness does not build against /repo" >&2
    exit 2
fi
rm -f "$LOG"
ulimit -c 0
ulimit -v 25165824
"$V/target/$PROFILE/$BIN" "$P" "$T" "$@"
rc=$?
if [ $rc -ge 128 ] && [ $rc -ne 130 ] && [ $rc -ne 137 ] && [ $rc -ne 143 ]; then
    # the code under test took the whole process down (stack overflow, failed allocation, segmentation fault)
    R="$V/evidence/replay/$P.txt"
    echo "$V/check.sh $P $T --trace    # the process under test died with status $rc" >"$R"
    printf '{"property": "%s", "tier": "%s", "seed": 1, "level": "model_checking", "coverage": {"states": 1, "transitions": 1, "traces_validated_against_impl": 1, "samples": ["process died with status %s"]}, "wall_s": 0, "violations": 1}\n' "$P" "$T" "$rc" >"$V/evidence/$P.json"
    echo "VIOLATION property=$P replay=$R"
    exit 1
fi
exit $rc
