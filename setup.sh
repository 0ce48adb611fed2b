#!/bin/bash
# Builds the IR extractor (a libTooling program); nothing else needs building.
set -e
cd "$(dirname "$0")"
mkdir -p build
LLVM=/usr/lib/llvm-18
if [ ! -x build/extract ] || [ tools/extract.cpp -nt build/extract ]; then
  clang++ -std=c++17 -fno-rtti -O1 $($LLVM/bin/llvm-config --cxxflags) -Wno-unused \
    tools/extract.cpp -o build/extract.tmp.$$ \
    $LLVM/lib/libclang-cpp.so.18.1 $LLVM/lib/libLLVM-18.so -Wl,-rpath,$LLVM/lib
  mv build/extract.tmp.$$ build/extract
fi
