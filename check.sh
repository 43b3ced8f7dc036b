#!/bin/bash
# check.sh ID [engine options]: builds the check of the property against /repo's current tree and runs it
cd "$(dirname "$0")" || exit 2
id=$1; shift
export LC_ALL=C.UTF-8 TZ=UTC
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=2048:detect_stack_use_after_return=0:handle_abort=1:malloc_context_size=8:quarantine_size_mb=16
export UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1
python3 build.py "$id" || { echo "build failed" >&2; exit 2; }
exec ./build/check_"$id" "$@"
