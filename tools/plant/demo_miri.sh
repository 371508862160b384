#!/bin/bash
# Run with the repository as the current folder: exit 0 if the demonstration passes
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)" || exit 99
trap 'rm -rf -- "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[dependencies]
futures-signals = { path = "$repo", features = ["serde", "debug"] }
futures-util = "0.3"
futures-core = "0.3"
futures-channel = "0.3"
discard = "1"
serde_json = "1"

[workspace]

[profile.release]
debug-assertions = true
overflow-checks = true
EOF
unset CARGO
export CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true RUSTFLAGS="--cap-lints=warn"
unset RUSTC_WRAPPER
cd "$tmp" || exit 99
# Weak memory and data races need the interpreter
export MIRIFLAGS="-Zmiri-many-seeds=0..8 -Zmiri-disable-isolation" XDG_CACHE_HOME="$tmp/cache"
cargo +nightly miri setup >"$tmp/log" 2>&1 || { cat "$tmp/log"; exit 98; }
timeout 200 cargo +nightly miri run --offline --quiet 2>&1 | tail -30
exit "${PIPESTATUS[0]}"
