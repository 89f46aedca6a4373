#!/bin/bash
# builds main.rs (with common.rs) against the crates in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
[ -f /opt/vp/env.sh ] && source /opt/vp/env.sh
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here"/*.rs "$d/src/"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
gdbstub = { path = "$repo" }
gdbstub_arch = { path = "$repo/gdbstub_arch" }
log = "0.4"
[workspace]
T
CARGO_TARGET_DIR="$d/target" cargo build --offline -q --manifest-path "$d/Cargo.toml" >"$d/log" 2>&1 || { cat "$d/log"; exit 3; }
timeout 120 "$d/target/debug/demo"
