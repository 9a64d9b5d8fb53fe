#!/bin/bash
# builds the symbolic executor into the directory given
set -e
out=${1:?usage: build.sh OUTDIR}
mkdir -p "$out"
src=$(dirname "$(realpath "$0")")
stamp=$(cat "$src"/xsym.cpp "$src"/expr.hpp "$src"/solver.hpp | sha256sum | cut -c1-16)
if [ -x "$out/xsym" ] && [ "$(cat "$out/xsym.stamp" 2>/dev/null)" = "$stamp" ]; then exit 0; fi
g++ -std=c++17 -O2 -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS \
    -D__STDC_LIMIT_MACROS "$src/xsym.cpp" -o "$out/xsym.tmp.$$" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
mv "$out/xsym.tmp.$$" "$out/xsym"
echo "$stamp" > "$out/xsym.stamp"
