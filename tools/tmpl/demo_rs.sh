#!/bin/bash
# Builds main.rs (beside this file) against the library built from the current tree and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=$T/target RUSTC_WRAPPER= CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
mkdir -p "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cp /opt/vp/ws/Cargo.lock "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
rustfst = { path = "/opt/vp/ws/rustfst" }
anyhow = "1"
TOML
cd "$T" && cargo build -q --offline 2>"$T/log" || { cat "$T/log"; exit 3; }
timeout 60 "$T/target/debug/demo"
