#!/bin/bash
# builds the symbolic executor into $1
set -e
D=$(cd "$(dirname "$0")" && pwd); OUT=${1:-$D/../build}; mkdir -p "$OUT"
/usr/bin/clang++-18 -O2 -std=c++17 $(llvm-config-18 --cxxflags | tr ' ' '\n' | grep -E '^-I|^-D' | tr '\n' ' ') -Wno-everything "$D/symx.cpp" -o "$OUT/symx.tmp" $(llvm-config-18 --ldflags) -lLLVM-18 -lz3
mv "$OUT/symx.tmp" "$OUT/symx"
RF="-O1 -std=c++17 -w -fno-access-control -fno-builtin -fno-vectorize -fno-slp-vectorize -fno-jump-tables -fno-threadsafe-statics -emit-llvm -c -I$D"
/usr/bin/clang++-18 $RF "$D/rt.cpp" -o "$OUT/rt1.tmp.bc"
/usr/bin/clang++-18 $RF "$D/rtc.cpp" -o "$OUT/rt2.tmp.bc"
/usr/bin/llvm-link-18 "$OUT/rt1.tmp.bc" "$OUT/rt2.tmp.bc" -o "$OUT/rt.tmp.bc" 
mv "$OUT/rt.tmp.bc" "$OUT/rt.bc"
