#!/bin/bash
# Builds the symbolic executor and the runtime-model bitcode into /verif/build (idempotent).
set -e
cd "$(dirname "$0")"
B=../build; mkdir -p $B
if [ ! -x $B/symx ] || [ -n "$(find . -name '*.?pp' -newer $B/symx -o -name '*.inc' -newer $B/symx)" ]; then
  CF="-std=c++20 -O2 -Wall -Wno-unused-function -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -fexceptions"
  (g++ $CF -c expr.cpp -o $B/expr.o) & P1=$!
  (g++ $CF -c solver.cpp -o $B/solver.o) & P2=$!
  g++ $CF -w -c exec.cpp -o $B/exec.o
  wait $P1; wait $P2
  g++ $B/expr.o $B/solver.o $B/exec.o -o $B/symx.tmp -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
  mv $B/symx.tmp $B/symx
fi
if [ -f rt.cpp ] && { [ ! -f $B/rt.bc ] || [ rt.cpp -nt $B/rt.bc ]; }; then
  clang++-18 -std=c++17 -O1 -fno-builtin -fno-vectorize -fno-slp-vectorize -D_GLIBCXX_EXTERN_TEMPLATE=0 -DNDEBUG -fno-threadsafe-statics -w -g0 -emit-llvm -c rt.cpp -o $B/rt.bc
fi
