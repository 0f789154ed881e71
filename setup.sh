#!/bin/bash
# Builds the fact extractor (libTooling) from the committed source.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/build"
L=/usr/lib/llvm-18
CXX=clang++
command -v clang++ >/dev/null || CXX=g++
$CXX -O1 -std=c++17 -fno-rtti -w -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS \
    -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "$here/extractor/extract.cpp" \
    -o "$here/build/extract.tmp.$$" \
    "$L/lib/libclang-cpp.so.18.1" "$L/lib/libLLVM-18.so" -Wl,-rpath,$L/lib
mv "$here/build/extract.tmp.$$" "$here/build/extract"
# Reads the program once, so that checks only re-read the units that changed since.
cd "$here"
python3 -c 'from engine.load import load; p = load(); print(len(p.funcs), "functions")' || true
