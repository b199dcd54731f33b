#!/bin/bash
# builds the harness (with /repo's crate inside) and the cambrian binary; used by setup and by every check
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=1
export PATH="$HOME/.cargo/bin:$PATH"
cd "$(dirname "$0")" || exit 2
V="$PWD"
mkdir -p "$V/target" "$V/target-cli"
exec 9> "$V/target/.lock"
flock 9
# cargo goes by mtime and misses a file put back with an old one: always recompile the crate itself
rm -rf "$V"/target/debug/.fingerprint/cambrian-* "$V"/target-cli/debug/.fingerprint/cambrian-*
cargo build --offline --locked --manifest-path "$V/harness/Cargo.toml" --target-dir "$V/target" || exit 1
CARGO_PROFILE_DEV_DEBUG=line-tables-only cargo build --offline --locked --manifest-path /repo/Cargo.toml --bin cambrian --target-dir "$V/target-cli" || exit 1
