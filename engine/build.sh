#!/bin/bash
# usage: build.sh OUT
set -e
cd "$(dirname "$0")"
L=/usr/lib/llvm-18
FL="-O1 -g1 -std=c++20 -I$L/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -fno-exceptions -fno-rtti"
T=$(mktemp -d)
for f in expr blast vcg; do clang++-18 $FL -c $f.cpp -o $T/$f.o & p="$p $!"; done
for x in $p; do wait $x; done
clang++-18 $T/expr.o $T/blast.o $T/vcg.o -o "$1.tmp$$" -L$L/lib -lLLVM-18 -lz3
mv "$1.tmp$$" "$1"
rm -r "$T"
