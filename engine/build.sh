#!/bin/bash
# builds the executor into $1
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/symex}
clang++-18 -std=c++17 -O2 -g0 -w -fno-exceptions -fno-rtti -I"$(llvm-config-18 --includedir)" -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -D__STDC_FORMAT_MACROS \
  "$here/symex.cpp" -o "$out" -L"$(llvm-config-18 --libdir)" -lLLVM-18 -lz3 -licuuc -licui18n -lpthread
