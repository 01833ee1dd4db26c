#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build/engine).
set -e
D=$(cd "$(dirname "$0")" && pwd); B=${1:-$D/../build/engine}; mkdir -p "$B"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -f $Z/include/z3++.h ] && [ -f $Z/lib/libz3.so ]; then ZI="-I$Z/include"; ZL="$Z/lib/libz3.so -Wl,-rpath,$Z/lib"; else ZI=""; ZL="-lz3"; fi
LC=$(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//; s/-std=[^ ]*//; s/-D_GLIBCXX_USE_CXX11_ABI=[01]//'); LL="$(llvm-config-18 --ldflags) -lLLVM-18"
pids=()
for f in expr solver interp control builtins evald main; do
  if [ ! -f $B/$f.o ] || [ -n "$(find $D -name '*.?pp' -newer $B/$f.o | grep -E "/$f\.cpp|\.hpp" | head -1)" ]; then
    g++ -std=c++17 -O2 -g0 -w $LC -fexceptions -frtti $ZI -c $D/$f.cpp -o $B/$f.o & pids+=($!)
  fi
done
for p in "${pids[@]}"; do wait $p; done
g++ -o $B/dwsym.tmp $B/{expr,solver,interp,control,builtins,evald,main}.o $ZL $LL -lgmpxx -lgmp
mv $B/dwsym.tmp $B/dwsym
