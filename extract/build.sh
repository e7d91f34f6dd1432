#!/bin/bash
# build.sh OUT: compiles the extractor
set -e
cd "$(dirname "$0")"
/usr/bin/clang++ -O0 -std=c++17 -fno-rtti -w -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  -I/usr/lib/llvm-18/include extract.cpp -o "$1" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM.so.18.1 -Wl,-rpath,/usr/lib/llvm-18/lib
