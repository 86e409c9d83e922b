#!/bin/bash
# run_check.sh ID [quick|thorough] [extra args]: rebuild what is out of date from /repo's working tree, then run.
cd "$(dirname "$0")" || exit 2
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift; shift
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="$tier"
./build.sh "$id" || { echo "build of $id failed"; exit 2; }
mkdir -p evidence replay
export ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=4000:detect_stack_use_after_return=0:handle_abort=1:print_summary=1"
export TSAN_OPTIONS="halt_on_error=1:exitcode=98:second_deadlock_stack=1"
run=("build/$id")
if [ -f "py/$id.py" ]; then  # driven from Python, against the sanitized extension modules in build/py
  export LD_PRELOAD="$(gcc -print-file-name=libasan.so) $(gcc -print-file-name=libstdc++.so.6)" PYTHONMALLOC=malloc PYTHONDONTWRITEBYTECODE=1
  run=(/usr/bin/python3 "py/$id.py")
fi
exec "${run[@]}" --tier "$tier" --evidence "evidence/$id.json" --replay-dir replay --known known_findings.txt "$@"
