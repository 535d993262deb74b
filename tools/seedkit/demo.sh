#!/bin/bash
# Builds and runs the small program beside this file against /repo, in a scratch directory.
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/Cargo.toml" "$tmp/"
cp "$here/main.rs" "$here/world.rs" "$tmp/src/"
cp /repo/Cargo.lock "$tmp/"
cd "$tmp"
export CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true
cargo build --offline -q
"$tmp/target/debug/demo"
