#!/bin/bash
# Builds the harness against /repo's current working tree (into /verif/target, git-ignored).
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" RUSTFLAGS="--cap-lints allow"
exec cargo build --manifest-path harness/Cargo.toml --offline --locked --release -q
