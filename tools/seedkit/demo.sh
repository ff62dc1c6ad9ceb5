#!/bin/bash
# Run with cwd = the repository, after its build. Builds the repository's sources with the kit beside
# this file (stand-ins for the git dependencies) and runs demo.rs against them.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
tar xzf "$here/kit.tar.gz" -C "$t" || exit 99
cp "$here/demo.rs" "$t/demo/src/main.rs"
sed -i "s#\"/repo/#\"$repo/#" "$t"/crates/*/Cargo.toml
mkdir "$t/tmp"
cd "$t/demo" || exit 99
export TMPDIR="$t/tmp" CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings"
timeout 200 cargo build --offline --locked -q || exit 98
timeout 60 "$t/target/debug/demo"
