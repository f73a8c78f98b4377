#!/bin/bash
# builds the exporter into $1
set -e
g++ -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include "$(dirname "$0")/exporter.cpp" -o "$1" /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18 -L/usr/lib/llvm-18/lib -lLLVM-18
