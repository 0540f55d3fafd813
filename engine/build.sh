#!/bin/bash
# build the symbolic executor into $1
set -e
D=$(cd "$(dirname "$0")" && pwd); OUT=${1:-$D/../build/symir}
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
mkdir -p "$(dirname "$OUT")"
g++ -std=c++17 -O2 -g0 -w -maes -msse4.1 -I"$D" -I$Z/include -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "$D/main.cc" -o "$OUT" -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -lLLVM-18 -L$Z/lib -Wl,-rpath,$Z/lib -lz3 -lpthread
