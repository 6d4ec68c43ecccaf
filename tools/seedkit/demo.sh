#!/bin/bash
# Builds main.rs against the ckb-vm in the current directory, in a scratch folder, and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here"/*.rs "$work/src/"
cp "$repo/Cargo.lock" "$work/"
feat='"asm"'
[ -f "$here/plain" ] && feat=''
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
ckb-vm = { path = "$repo", features = [$feat] }
[profile.dev]
opt-level = 1
overflow-checks = false
debug = false
[workspace]
T
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.81.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR="$work/target"
cd "$work"
cargo run --offline -q
