#!/bin/bash
# Builds the AST extractor into /verif/.build (git-ignored).
set -e
cd "$(dirname "$0")"
mkdir -p ../.build
if [ ! -x ../.build/extract ] || [ extract.cpp -nt ../.build/extract ]; then
clang++ -std=c++17 -O1 -fno-rtti -fno-exceptions -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -w extract.cpp -o ../.build/extract.tmp /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/x86_64-linux-gnu/libLLVM.so.18.1 -Wl,-rpath,/usr/lib/llvm-18/lib
mv ../.build/extract.tmp ../.build/extract
fi
