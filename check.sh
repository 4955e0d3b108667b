#!/bin/bash
# check.sh <property> <quick|thorough>: builds the simulator against /repo's working tree and runs
# the check of one property. Exit 0: held on everything explored; 1: VIOLATION line; 2: no answer.
# check.sh --build: builds every variant.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
export PATH=$PATH:/root/.cargo/bin:/usr/local/bin
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_TARGET_DIR

build() { # variant
    local feat=()
    case $1 in
    unicache) feat=(--features unicache) ;;
    toml) feat=(--features toml) ;;
    rocks)
        feat=(--features rocks)
        # RocksDB takes minutes to compile: link the archive of the repository's own build if it is there
        local a
        a=$(ls /opt/vp/ws/target/debug/build/librocksdb-sys-*/out/librocksdb.a 2>/dev/null | head -1)
        if [ -n "$a" ] && [ -f "$(dirname "$a")/libsnappy.a" ]; then
            ROCKSDB_LIB_DIR=$(dirname "$a")
            export ROCKSDB_LIB_DIR ROCKSDB_STATIC=1 SNAPPY_LIB_DIR=$ROCKSDB_LIB_DIR SNAPPY_STATIC=1
        fi
        ;;
    esac
    local log
    log=$(mktemp)
    if ! (cd sim && cargo build --release --locked --offline "${feat[@]}" --target-dir "../target-$1") >"$log" 2>&1; then
        tail -60 "$log" >&2
        rm -f "$log"
        echo "build of the $1 simulator failed" >&2
        return 1
    fi
    rm -f "$log"
}

if [ "$1" = --build ]; then
    for v in core unicache rocks toml; do build $v || exit 2; done
    exit 0
fi
id=$1
tier=${2:-${VERIF_TIER:-quick}}
case $id in
C16 | C17) v=rocks ;;
C18) v=unicache ;;
C22) v=toml ;;
C*) v=core ;;
*) echo "usage: $0 <property> quick|thorough" >&2; exit 2 ;;
esac
build $v || exit 2
base=/tmp
[ -w /dev/shm ] && base=/dev/shm
SIM_SCRATCH=$(mktemp -d "$base/simcheck.XXXXXX") || exit 2
export SIM_SCRATCH
trap 'rm -rf -- "$SIM_SCRATCH"' EXIT
"target-$v/release/simcheck" check "$id" "$tier"
exit $?
