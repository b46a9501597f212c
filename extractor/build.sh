#!/bin/bash
# Builds the extractor (dynamic libclang-cpp / libLLVM) into /verif/build.
set -e
cd "$(dirname "$0")"
mkdir -p ../build
LC=/usr/lib/llvm-18/bin/llvm-config
clang++ $($LC --cxxflags) -std=c++17 -fno-rtti -O1 -w extract.cc -o ../build/extract.tmp.$$ \
  -L/usr/lib/llvm-18/lib /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 $($LC --ldflags) -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
mv -f ../build/extract.tmp.$$ ../build/extract
