#!/bin/bash
# builds the symbolic executor: build.sh OUT
here=$(dirname "$(readlink -f "$0")")
exec clang++ -std=c++17 -O2 -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -w "$here/exec.cpp" -o "$1" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
