#!/bin/bash
# builds the engine into $1
set -e
O=$(mkdir -p "${1:?out dir}"; cd "$1"; pwd); cd "$(dirname "$0")"
g++ -O2 -g1 -std=c++17 -fno-exceptions -fno-rtti -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -D_GNU_SOURCE -c expr.cpp -o "$O/expr.o" &
g++ -O2 -g1 -std=c++17 -fexceptions -fno-rtti -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -D_GNU_SOURCE -c symex.cpp -o "$O/symex.o"
wait
g++ -o "$O/symex" "$O/symex.o" "$O/expr.o" -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lunistring
