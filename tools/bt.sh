#!/bin/sh
# bt.sh REPLAY : re-run a replay under gdb and print the stack
export ASAN_OPTIONS=alloc_dealloc_mismatch=0:detect_leaks=0:allocator_may_return_null=1:new_delete_type_mismatch=0
exe=$(sed -n 's/^# --- script (run: \([^ ]*\) .*/\1/p' "$1")
grep -v '^#' "$1" > /tmp/bt.script
mkdir -p /tmp/bt.d; cd /tmp/bt.d
gdb -q -batch -ex "set follow-fork-mode child" -ex "handle SIGPIPE nostop noprint pass" -ex run -ex bt --args $exe /tmp/bt.script /tmp/bt.ndjson 2>&1 | grep -E '^#' | head -${2:-14} | cut -c1-220
