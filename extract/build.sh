#!/bin/bash
# Builds the extractor into /verif/build/lpx (offline; clang 18 development files only).
set -e
here="$(cd "$(dirname "$0")" && pwd)"; out="$here/../build"; mkdir -p "$out"
if [ "$out/lpx" -nt "$here/extract.cpp" ]; then exit 0; fi
tmp="$out/.lpx.$$"
clang++ -std=c++17 -fno-rtti -O1 -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/extract.cpp" -o "$tmp" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$tmp" "$out/lpx"
