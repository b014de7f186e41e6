#!/bin/bash
# Builds the extractor into /verif/build (not committed).
set -e
D=$(cd "$(dirname "$0")" && pwd)
B=$D/../build
mkdir -p "$B"
LIB=$(ls /usr/lib/llvm-18/lib/libclang-cpp.so* /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18* 2>/dev/null | head -1)
g++ -O1 -std=c++17 -fno-rtti -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE \
  -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$D/extract.cc" -o "$B/extract.tmp.$$" "$LIB" -L/usr/lib/llvm-18/lib -lLLVM-18
mv "$B/extract.tmp.$$" "$B/extract"
