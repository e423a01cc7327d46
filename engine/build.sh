#!/bin/bash
# Builds the symbolic executor into /verif/build (ignored by git).
set -e
cd "$(dirname "$0")"
OUT=../build
mkdir -p $OUT
LL=/usr/lib/llvm-20
Z3DIR=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -f $Z3DIR/lib/libz3.so ] && [ -f $Z3DIR/include/z3.h ]; then
  Z3F="-I$Z3DIR/include"; Z3L="-L$Z3DIR/lib -lz3 -Wl,-rpath,$Z3DIR/lib"
else
  Z3F=""; Z3L="-lz3"
fi
FL="-std=c++20 -O2 -g1 -fexceptions -Wno-deprecated-declarations -I$LL/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
g++ $FL $Z3F -c expr.cpp -o $OUT/expr.o &
g++ $FL $Z3F -c symx.cpp -o $OUT/symx.o &
wait %1 && wait %2
g++ -o $OUT/symx.tmp $OUT/symx.o $OUT/expr.o -L$LL/lib -lLLVM-20 -Wl,-rpath,$LL/lib $Z3L -lpthread
mv $OUT/symx.tmp $OUT/symx
