#!/bin/bash
# Builds the simulator against /repo's working tree, with the simulation seams on.
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS="--cfg clickhouse_sim -Awarnings"
unset RUSTDOCFLAGS DATABASE_URL CARGO_BUILD_TARGET
export CARGO_TARGET_DIR=/verif/target
# cargo does not notice edits to the C++ files of cityhash; the hash in CXXFLAGS makes it
cd /repo || exit 2
CXXFLAGS="-DVP_SOURCE_HASH=h$(find clickhouse-rs-cityhash-sys/src/cc clickhouse-rs-cityhash-sys/build.rs -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-16)"
export CXXFLAGS
cd /verif/sim || exit 2
exec cargo build --offline "$@"
