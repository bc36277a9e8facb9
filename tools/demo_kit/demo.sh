#!/bin/bash
# Builds the small program in main.rs against the contracts of /repo and runs it: exit 0 iff the promised behaviour is seen.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cp "$here/Cargo.toml" "$here/main.rs" "$here/kit.rs" "$t/" && cp /repo/Cargo.lock "$t/" || exit 3
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
export HOME=/root PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.71.1 RUSTUP_AUTO_INSTALL=0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUST_BACKTRACE=0
export CARGO_TARGET_DIR="$t/target"
cd "$t" && cargo build --offline -q 2> build.log || { tail -30 build.log; exit 2; }
exec_ok=0
timeout 120 "$t/target/debug/demo" || exec_ok=1
exit $exec_ok
