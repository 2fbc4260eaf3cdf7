#!/bin/bash
# Builds ccx into $1 (default /verif/build).
set -e
cd "$(dirname "$0")"
OUT=${1:-$(dirname "$PWD")/build}; mkdir -p "$OUT"
LL=/usr/lib/llvm-18
clang++ -std=c++17 -O1 -fno-rtti -w -I$LL/include ccx.cc $LL/lib/libclang-cpp.so.18.1 $LL/lib/libLLVM.so -Wl,-rpath,$LL/lib -o "$OUT/ccx.tmp.$$"
mv "$OUT/ccx.tmp.$$" "$OUT/ccx"
