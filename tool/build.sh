#!/bin/bash
# builds the fact extractor from source
set -e
d=$(cd "$(dirname "$0")" && pwd)
out=${1:-$d/bin/dyfacts}
mkdir -p "$(dirname "$out")"
clang++-18 -std=c++17 -O1 -fno-rtti -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "$d/extract.cpp" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM.so.18.1 -Wl,-rpath,/usr/lib/llvm-18/lib -s -o "$out.tmp"
mv "$out.tmp" "$out"
sha256sum < "$d/extract.cpp" | cut -d' ' -f1 > "$out.src"
