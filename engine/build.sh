#!/bin/bash
# usage: build.sh OUTDIR  -- compiles the symbolic engine (parallel, ~15 s)
set -e
cd "$(dirname "$0")"
O=$1; mkdir -p "$O"
P=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -f $P/lib/libz3.so ]; then ZI=-I$P/include; ZL="$P/lib/libz3.so -Wl,-rpath,$P/lib"; else ZI=; ZL=-lz3; fi
pids=
for f in expr solver zsym; do
  g++ -std=c++20 -O2 -w -fno-rtti -isystem /usr/include/llvm-18 -isystem /usr/include/llvm-c-18 $ZI -c $f.cpp -o "$O/$f.o" & pids="$pids $!"
done
for p in $pids; do wait $p; done
g++ "$O"/expr.o "$O"/solver.o "$O"/zsym.o -o "$O/zsym.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 $ZL
mv "$O/zsym.tmp" "$O/zsym"
