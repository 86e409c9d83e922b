#!/bin/bash
# build.sh [targets]: configures and builds the checks (all by default) from /repo's working tree into ./build
cd "$(dirname "$0")" || exit 2
export CC=gcc CXX=g++ LC_ALL=C.UTF-8
mkdir -p build
exec 9>build/.lock
flock 9
log=build/last_build.log
{ [ -f build/build.ninja ] || cmake -S . -B build -G Ninja -DCMAKE_BUILD_TYPE=None; } >"$log" 2>&1 && ninja -C build "$@" >>"$log" 2>&1
rc=$?
if [ $rc -ne 0 ]; then grep -E "error|Error|FAILED" "$log" | cut -c1-400 | head -20; tail -5 "$log" | cut -c1-300; fi
exit $rc
