#!/bin/bash
# builds the analysis tools into /verif/build (skipped when up to date)
set -e
d=$(cd "$(dirname "$0")" && pwd); b=$d/../build; mkdir -p $b
inc=$(/usr/lib/llvm-18/bin/llvm-config --includedir)
CXX="clang++ -std=c++17 -O2 -fno-rtti -I$inc -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -w"
LL="-L/usr/lib/llvm-18/lib -lLLVM-18"
build() { out=$b/$1; shift; srcs="$*"; new=0; [ -x $out ] || new=1; for s in $srcs $d/*.hpp; do [ $s -nt $out ] && new=1; done
  if [ $new = 1 ]; then $CXX -o $out.$$ $srcs $LL -lgmpxx -lgmp && mv $out.$$ $out; fi; }
( flock 9
build xkflow $d/xkflow.cpp
build xkai $d/xkai.cpp $d/poly.cpp
) 9>$b/.lock
