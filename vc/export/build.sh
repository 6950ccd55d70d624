#!/bin/bash
# Builds the AST exporter (clang 18 libraries of this machine) into the given file.
set -e
D=$(cd "$(dirname "$0")" && pwd)
g++ -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include "$D/astexport.cc" -o "$1.tmp.$$" \
  -L/usr/lib/llvm-18/lib -L/usr/lib/x86_64-linux-gnu -l:libclang-cpp.so.18.1 -l:libLLVM-18.so
mv "$1.tmp.$$" "$1"
