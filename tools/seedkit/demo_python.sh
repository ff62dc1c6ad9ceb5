#!/bin/bash
# Run with cwd = the repository, after its build. Builds the repository's Python extension library with
# the kit beside this file, and runs demo.py with a copy of the repository's Python package.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
tar xzf "$here/kit.tar.gz" -C "$t" || exit 99
cp "$here/demo.rs" "$t/demo/src/main.rs"
sed -i "s#\"/repo/#\"$repo/#" "$t"/crates/*/Cargo.toml
mkdir "$t/tmp" "$t/package"
export TMPDIR="$t/tmp" CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings" PYTHONDONTWRITEBYTECODE=1
(cd "$t/demo" && timeout 120 cargo build --offline --locked -q) || exit 98
(cd "$t/crates/python-ffi" && timeout 120 cargo build --offline --locked -q) || exit 98
"$t/target/debug/demo" "$t/engine" || exit 97
mkdir "$t/package/snips_nlu_rust" "$t/package/snips_nlu_rust/dylib"
cp "$repo"/platforms/python/snips_nlu_rust/*.py "$t/package/snips_nlu_rust/"
cp "$t/target/debug/libsnips_nlu_python_ffi.so" "$t/package/snips_nlu_rust/dylib/libsnips_nlu_rs.so"
timeout 60 python3 "$here/demo.py" "$t/package" "$t/engine"
