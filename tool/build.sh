#!/bin/bash
# build.sh OUT: compile the fact extractor against the installed libclang
exec clang++ -std=c++17 -O1 -fno-rtti -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS "$(dirname "$0")/gfacts.cpp" -o "$1" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM.so.18.1
