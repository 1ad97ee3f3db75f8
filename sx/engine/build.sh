#!/bin/bash
# builds the symbolic executor into $1
set -e
out="$1"; src="$(cd "$(dirname "$0")" && pwd)"; mkdir -p "$out"
cd "$out"
CX="clang++-18 -std=c++20 -O2 -w -I/usr/lib/llvm-18/include"
pids=()
for u in expr builtins main icp; do $CX -c "$src/$u.cpp" -o $u.o & pids+=($!); done
$CX -O1 -fno-rtti -c "$src/ir.cpp" -o ir.o & pids+=($!)
$CX -O1 -c "$src/solver.cpp" -o solver.o & pids+=($!)
for p in "${pids[@]}"; do wait $p; done
$CX expr.o builtins.o main.o icp.o ir.o solver.o -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -o sx.tmp
mv sx.tmp sx
