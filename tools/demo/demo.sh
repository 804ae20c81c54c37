#!/bin/bash
# Builds demo.rs (with the small server in fake.rs) against the tree in the working directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" && cp "$here/fake.rs" "$d/src/" && cp "$repo/Cargo.lock" "$d/" || exit 3
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
clickhouse-rs = { path = "$repo" }
clickhouse-rs-cityhash-sys = { path = "$repo/clickhouse-rs-cityhash-sys" }
futures-util = "0.3"
lz4 = "1"
tokio = { version = "1", default-features = false, features = ["rt-multi-thread", "macros", "time", "net", "io-util"] }
[workspace]
TOML
cd "$d" || exit 3
export CARGO_TARGET_DIR="${DEMO_TARGET:-$d/target}"
cargo build --offline -q || exit 4
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
