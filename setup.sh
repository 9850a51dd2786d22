#!/bin/bash
# Builds the symbolic execution engine (the only thing built ahead of the checks).
set -e
cd "$(dirname "$0")"
mkdir -p build
g++ -O2 -std=c++17 -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS engine/ushsym.cpp -o build/ushsym.tmp$$ -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
mv build/ushsym.tmp$$ build/ushsym
