#!/bin/bash
# run.sh <property> [--thorough] [--seed N] [--case K] [--seconds N] [--workers N]
# Builds the harness, and through it /repo's current tree, then runs one check.
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?usage: run.sh <property> [options]}
shift
tier=()
[ "${VERIF_TIER:-quick}" = thorough ] && tier=(--thorough)
. "$here/build.sh"
case $id in
    C14 | C16 | C27 | C30)
        build() { build_plain && build_tsan; }
        build=build exe=$plain_exe
        export VERIF_TSAN_EXE=$tsan_exe
        ;;
    C19)
        build() { build_asan && build_tsan; }
        build=build exe=$asan_exe
        export VERIF_TSAN_EXE=$tsan_exe
        ;;
    C20) build=build_asan exe=$asan_exe ;;
    C21)
        build() { build_plain && build_python; }
        build=build exe=$plain_exe
        export VERIF_PYLIB=$here/target/debug/libsnips_nlu_python_ffi.so
        ;;
    *) build=build_plain exe=$plain_exe ;;
esac
if ! $build > "$here/target.log.$$" 2>&1; then
    cat "$here/target.log.$$" >&2
    rm -f "$here/target.log.$$"
    echo "BUILD-ERROR: the harness does not build against /repo" >&2
    exit 2
fi
rm -f "$here/target.log.$$"
exec "$exe" "$id" --root "$here" --seed "${VERIF_SEED:-1}" "${tier[@]}" "$@"
