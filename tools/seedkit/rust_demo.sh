#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it: 0 = the property held.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
work=/tmp/cambrian-demo-@ID@
rm -rf /tmp/cambrian-demo-@ID@
mkdir -p "$work/src" "$work/scratch"
trap 'rm -rf /tmp/cambrian-demo-@ID@' EXIT
cp "$here/main.rs" "$here/kit.rs" "$work/src/"
cp "$here/lock.txt" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
cambrian = { path = "$PWD" }
serde_json = "1.0.85"
rand = "0.8.5"
async-trait = "0.1.57"
async-broadcast = "0.5.0"
futures = { version = "0.3.24", features = ["executor", "thread-pool"] }
tokio = { version = "1.21.2", features = ["full"] }

[profile.dev]
opt-level = 1
debug = false
EOF
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$work/target" SCRATCH="$work/scratch"
export PATH="$HOME/.cargo/bin:$PATH"
cd "$work"
cargo build --offline -q || exit 3
timeout 100 "$work/target/debug/demo"
rc=$?
[ $rc = 0 ] && echo "demo: held" || echo "demo: VIOLATED (rc $rc)"
exit $rc
