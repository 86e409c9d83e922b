#!/bin/bash
# replay.sh ID FILE: re-executes a recorded minimal case
cd "$(dirname "$0")" || exit 2
./build.sh "$1" || exit 2
export ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=4000" TSAN_OPTIONS="halt_on_error=1:exitcode=98"
run=("build/$1")
if [ -f "py/$1.py" ]; then
  export LD_PRELOAD="$(gcc -print-file-name=libasan.so) $(gcc -print-file-name=libstdc++.so.6)" PYTHONMALLOC=malloc PYTHONDONTWRITEBYTECODE=1
  run=(/usr/bin/python3 "py/$1.py")
fi
exec "${run[@]}" --replay "$2"
