#!/bin/bash
# run.sh check ID | run.sh replay FILE | ...   (rebuilds from /repo first)
V=$(cd "$(dirname "$0")" && pwd); B=${DRPM_SIM_BUILD:-$V/.build}
bash "$V/build.sh" || exit 2
export ASAN_OPTIONS=allocator_may_return_null=1:detect_leaks=0:max_malloc_fill_size=2048:malloc_fill_byte=190:handle_abort=0:allow_user_segv_handler=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:quarantine_size_mb=2:max_allocation_size_mb=3000
export LC_ALL=C TZ=UTC HOME=/nonexistent
unset LD_PRELOAD DRPM_SIM_NOASLR
exec "$B/sim" "$@"
