#!/bin/bash
# Builds the extractor (libTooling) into /verif/build/extract. Offline; only
# the installed clang 18 headers and shared libraries are used.
set -e
D=$(cd "$(dirname "$0")" && pwd)
B=${1:-$(dirname "$D")/build}
mkdir -p "$B"
L=/usr/lib/llvm-18
CPPLIB=$(ls $L/lib/libclang-cpp.so.18.1 /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1 2>/dev/null | head -1)
clang++-18 -O1 -std=c++17 -fno-rtti -I$L/include -D_GNU_SOURCE \
  -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$D/extract.cc" -o "$B/extract.tmp.$$" "$CPPLIB" -L$L/lib -lLLVM-18
mv "$B/extract.tmp.$$" "$B/extract"
