# Sourced: how the harness is built, with and without AddressSanitizer.
export CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset RUST_LIB_BACKTRACE
plain_exe=$here/target/debug/harness
asan_exe=$here/target/asan/x86_64-unknown-linux-gnu/debug/harness
build_plain() {
    (cd "$here/harness" && CARGO_TARGET_DIR="$here/target" RUSTFLAGS="-Awarnings" cargo build --offline --locked)
}
build_asan() {
    (cd "$here/harness" && CARGO_TARGET_DIR="$here/target/asan" RUSTFLAGS="-Zsanitizer=address -Awarnings --cfg verif_asan" \
        cargo +nightly build --offline --locked --target x86_64-unknown-linux-gnu)
}
tsan_exe=$here/target/tsan/x86_64-unknown-linux-gnu/debug/harness
build_tsan() {
    (cd "$here/harness" && CARGO_TARGET_DIR="$here/target/tsan" RUSTFLAGS="-Zsanitizer=thread -Awarnings --cfg verif_tsan" \
        cargo +nightly build --offline --locked -Zbuild-std --target x86_64-unknown-linux-gnu)
}
build_python() {
    (cd "$here/crates/python-ffi" && CARGO_TARGET_DIR="$here/target" RUSTFLAGS="-Awarnings" cargo build --offline --locked)
}
