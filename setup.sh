#!/bin/bash
# Builds the harness once (the checks rebuild what changed).
here=$(cd "$(dirname "$0")" && pwd)
. "$here/build.sh"
build_plain && build_python && build_asan && build_tsan
