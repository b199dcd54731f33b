#!/bin/bash
# usage: run.sh <property> [suite]   rebuilds everything from /repo's working tree, then runs the check
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=1
export PATH="$HOME/.cargo/bin:$PATH"
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
mkdir -p evidence replays target
bash ./build.sh > target/build.log 2>&1 || { tail -n 40 target/build.log; echo "build failed"; exit 2; }
exec ./target/debug/cverif run "$@"
