#!/bin/bash
# run with cwd /repo: exit 0 when the behaviour is right, nonzero otherwise
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="$PWD"
W="$(mktemp -d)" || exit 2
trap 'rm -rf "$W"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$W" || exit 2
mkdir -p src
cp "$HERE/demo.rs" src/main.rs
cp "$REPO/Cargo.lock" Cargo.lock
cat > Cargo.toml <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rust_road_router = { path = "$REPO/engine" }
rayon = "^1.5.1"
rand = "^0.8.4"
[profile.dev]
opt-level = 1
debug = 0
T
export CARGO_TARGET_DIR="$W/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS
cargo build --offline >"$W/log" 2>&1 || { tail -20 "$W/log"; exit 3; }
timeout 120 "$W/target/debug/demo" >"$W/out" 2>&1
rc=$?
tail -5 "$W/out"
exit $rc
