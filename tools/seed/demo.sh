#!/bin/bash
# Builds the demonstration with /repo's current tree in a scratch directory and runs it there.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
cp "$here/Cargo.toml" "$here/main.rs" "$here/client.rs" "$tmp/" || exit 2
[ -f /repo/Cargo.lock ] && cp /repo/Cargo.lock "$tmp/"
cd /repo || exit 2
export CARGO_NET_OFFLINE=true
cargo build -q --offline --manifest-path "$tmp/Cargo.toml" --target-dir "$tmp/target" 2>"$tmp/log" || { cat "$tmp/log"; exit 2; }
timeout 60 "$tmp/target/debug/demo"
