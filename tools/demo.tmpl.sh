#!/bin/bash
# builds and runs the program beside this file against the crates of the current directory
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable} CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export CARGO_TARGET_DIR=$W/target
for m in stacks-core sbtc-core sbtc-cli; do cp -a "$REPO/$m" "$W/$m"; done
sed 's/^members = .*/members = ["demo", "stacks-core", "sbtc-core", "sbtc-cli"]/' "$REPO/Cargo.toml" > "$W/Cargo.toml"
mkdir -p "$W/demo/src"
cp "$HERE/demo.rs" "$W/demo/src/main.rs"
cat > "$W/demo/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
stacks-core.path = "../stacks-core"
sbtc-core.path = "../sbtc-core"
bdk.workspace = true
T
[ -f /opt/vp/ws/Cargo.lock ] && cp /opt/vp/ws/Cargo.lock "$W/Cargo.lock"
cd "$W"
cargo run --offline -q -p demo
