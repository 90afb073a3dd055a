#!/bin/bash
# Builds the demonstration beside this file against the crate in the current directory and runs it.
# Exit 0: behaves as it should. Anything else: broken.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= TERM=xterm-256color CARGO_TARGET_DIR="$tmp/target"
unset TERMINFO TERMINFO_DIRS
mkdir -p "$tmp/src"; cp "$here/demo.rs" "$tmp/src/main.rs"; cp "$here/common.rs" "$tmp/src/common.rs"
cat >"$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
mortal = { path = "$repo" }
libc = "0.2"
[workspace]
EOF
cp "$repo/Cargo.lock" "$tmp/Cargo.lock" 2>/dev/null
(cd "$tmp" && cargo build --offline -q) >"$tmp/log" 2>&1 || { tail -20 "$tmp/log"; exit 99; }
timeout 60 "$tmp/target/debug/demo" </dev/null
