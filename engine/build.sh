#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build/engine).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build/engine}
mkdir -p "$out"
pids=()
for f in expr solver symx; do
  if [ ! -f "$out/$f.o" ] || [ "$here/$f.cc" -nt "$out/$f.o" ] || [ "$here/expr.h" -nt "$out/$f.o" ] || [ "$here/solver.h" -nt "$out/$f.o" ]; then
    g++ -std=c++17 -O2 -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -c "$here/$f.cc" -o "$out/$f.o" &
    pids+=($!)
  fi
done
for p in "${pids[@]}"; do wait "$p"; done
g++ "$out"/expr.o "$out"/solver.o "$out"/symx.o -o "$out/symx" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
