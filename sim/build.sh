#!/bin/bash
# Build the simulator from /repo's working tree.
cd "$(dirname "$0")" || exit 2
unset DATABASE_URL
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true SQLX_OFFLINE=true
RUSTFLAGS="--cfg rexecutor_sim --check-cfg cfg(rexecutor_sim)" cargo build --release --offline -q "$@" && exit 0
# The hooks may not fit a changed tree (say, other lock types): the simulator works without them,
# with fewer points at which threads are preempted.
echo "building without the hooks" >&2
RUSTFLAGS="--check-cfg cfg(rexecutor_sim)" exec cargo build --release --offline -q "$@"
