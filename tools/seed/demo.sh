#!/bin/bash
# Builds main.rs against the rexecutor crate in the current directory and runs it.
# Exit 0: behaves as it should; nonzero: it does not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rexecutor = { path = "$repo/rexecutor" }
tokio = { version = "1", features = ["rt-multi-thread", "macros", "time", "sync"] }
async-trait = "0.1"
futures = "0.3"
chrono = "0.4"
serde = { version = "1", features = ["derive"] }
serde_json = "1"
cron = "*"
[workspace]
T
cp "$repo/Cargo.lock" "$d/Cargo.lock"
unset DATABASE_URL RUSTFLAGS
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
cargo build --offline -q --manifest-path "$d/Cargo.toml" 2>"$d/log" || { tail -20 "$d/log"; exit 3; }
timeout 120 "$d/target/debug/demo"
