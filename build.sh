#!/bin/bash
# Builds the simulator with drpm from /repo's current working tree. Objects are cached by content hash.
set -u
V=$(cd "$(dirname "$0")" && pwd); R=${DRPM_REPO:-/repo}; B=${DRPM_SIM_BUILD:-$V/.build}; mkdir -p "$B/cfg"
CC=gcc; CXX=g++; LOG=$B/build.log; : >"$LOG"
SIMFLAGS="-std=c++17 -O1 -g1 -fsanitize=address -fno-omit-frame-pointer -Wall -Wextra -Wno-misleading-indentation"
DFLAGS="-std=c99 -O1 -g -fsanitize=address -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern -U_FORTIFY_SOURCE -DHAVE_CONFIG_H -DDRPM_SIM -D_GNU_SOURCE -fno-common -fsanitize-coverage=trace-pc --param asan-instrumentation-with-call-threshold=0"
cat >"$B/cfg/config.h.new" <<'C'
#pragma once
#ifndef _XOPEN_SOURCE
#define _XOPEN_SOURCE 700
#endif
#define HAVE_LZLIB_DEVEL
#define WITH_ZSTD
C
cmp -s "$B/cfg/config.h.new" "$B/cfg/config.h" || cp "$B/cfg/config.h.new" "$B/cfg/config.h"
# the repository's own configuration header may define more: take over unknown switches that its build would set
hdr=$(cat "$V"/sim/*.h "$R"/src/drpm.h | sha256sum); dhdr=$(cat "$R"/src/*.h "$B/cfg/config.h" | sha256sum)
fail() { echo "build failed: $1" >&2; tail -30 "$LOG" >&2; exit 2; }
one() { # compiler flags src obj key
  local key; key=$(echo "$1 $2 $5 $(sha256sum <"$3")" | sha256sum | cut -d' ' -f1)
  if [ -f "$4" ] && [ "$(cat "$4.key" 2>/dev/null)" = "$key" ]; then return 0; fi
  $1 $2 -c "$3" -o "$4" >"$4.log" 2>&1 && echo "$key" >"$4.key" || { cat "$4.log" >>"$LOG"; return 1; }
}
pids=()
for f in vfs seam gen ref ops plans main; do one "$CXX" "$SIMFLAGS -I$R/src" "$V/sim/$f.cc" "$B/sim_$f.o" "$hdr" & pids+=($!); done
rm -f "$B"/list; for f in "$R"/src/*.c; do o="$B/d_$(basename "$f" .c).o"; echo "$o" >>"$B/list"; one "$CC" "$DFLAGS -I$B/cfg -I$R/src" "$f" "$o" "$dhdr" & pids+=($!); done
bad=0; for p in "${pids[@]}"; do wait "$p" || bad=1; done; [ $bad = 0 ] || fail compile
ld -r -o "$B/drpm_all.o" $(cat "$B/list") >>"$LOG" 2>&1 || fail "ld -r"
nm "$B/sim_seam.o" | awk '$2=="T" && $3 ~ /^sim_/ {print substr($3,5)}' | sort -u >"$B/wrapped"
nm -u "$B/drpm_all.o" | awk '{print $2}' | sort -u >"$B/undef"
comm -12 "$B/wrapped" "$B/undef" | awk '{print $1, "sim_"$1}' >"$B/redef"
objcopy --redefine-syms="$B/redef" "$B/drpm_all.o" "$B/drpm_sim.o" >>"$LOG" 2>&1 || fail objcopy
$CXX -fsanitize=address -rdynamic -o "$B/sim.tmp" "$B"/sim_*.o "$B/drpm_sim.o" -lrpm -lrpmio -lz -lbz2 -llzma -lzstd -llz -lcrypto -lpthread -ldl >>"$LOG" 2>&1 || fail link
objdump -d --no-show-raw-insn "$B/drpm_all.o" -r | grep -c __sanitizer_cov_trace_pc >"$B/blocks"
mv "$B/sim.tmp" "$B/sim"
