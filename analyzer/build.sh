#!/bin/bash
# builds dots-extract into analyzer/bin (git-ignored)
set -e
cd "$(dirname "$0")"
mkdir -p bin
[ bin/dots-extract -nt extract.cpp ] && exit 0
clang++ -std=c++17 -O1 -w -fno-rtti -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  -I/usr/lib/llvm-18/include extract.cpp -o bin/dots-extract.tmp -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib \
  /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18 -lLLVM-18 $EXTRA
mv bin/dots-extract.tmp bin/dots-extract
