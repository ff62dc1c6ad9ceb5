#!/bin/bash
# mkkit.sh: writes kit.tar.gz, the sources every demonstration under /verif/seeded is built with.
here=$(cd "$(dirname "$0")" && pwd)
v=$(cd "$here/../.." && pwd)
t=$(mktemp -d)
cp -r "$v/stubs" "$v/crates" "$here/demo" "$t/"
cp "$v/harness/src/world.rs" "$t/demo/src/world.rs"
cp "$v/harness/Cargo.lock" "$t/demo/Cargo.lock"
printf 'mod core;\nmod kit;\nmod world;\nfn main() {}\n' > "$t/demo/src/main.rs"
(cd "$t/demo" && CARGO_TARGET_DIR=/tmp/seedkit-target RUSTFLAGS=-Awarnings cargo build --offline -q) || exit 1
tar --sort=name --mtime=@0 --owner=0 --group=0 -C "$t" -czf "$here/kit.tar.gz" stubs crates demo
rm -rf "$t"
