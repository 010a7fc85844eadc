#!/bin/bash
# Builds /verif/build/astir (idempotent).
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p "$V/build"
if [ -x "$V/build/astir" ] && [ "$V/build/astir" -nt "$V/src/astir.cpp" ]; then exit 0; fi
T=$(mktemp "$V/build/astir.XXXXXX")
clang++ -std=c++17 -O1 -fno-rtti -fno-exceptions -w -I/usr/lib/llvm-18/include \
  -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$V/src/astir.cpp" -o "$T" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 \
  /usr/lib/llvm-18/lib/libLLVM-18.so -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$T" "$V/build/astir"
