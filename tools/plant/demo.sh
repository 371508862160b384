#!/bin/bash
# Run with the repository as the current folder: exit 0 if the demonstration passes
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)" || exit 99
trap 'rm -rf -- "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[dependencies]
futures-signals = { path = "$repo", features = ["serde", "debug"] }
futures-util = "0.3"
futures-core = "0.3"
futures-channel = "0.3"
discard = "1"
serde_json = "1"

[workspace]

[profile.release]
debug-assertions = true
overflow-checks = true
EOF
export CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true RUSTFLAGS="--cap-lints=warn"
unset RUSTC_WRAPPER
cd "$tmp" || exit 99
for attempt in 1 2; do
    cargo build --offline --quiet --release >"$tmp/log" 2>&1 && break
    [ $attempt = 2 ] && { cat "$tmp/log"; exit 98; }
done
timeout 200 "$tmp/target/release/demo"
