#!/bin/bash
# Builds the extractor into /verif/build (or $1).
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
mkdir -p "$out"
L=/usr/lib/llvm-18
want=$(sha256sum "$here/yxt.cpp" | cut -c1-16)
if [ -x "$out/yxt" ] && [ "$(cat "$out/yxt.sum" 2>/dev/null)" = "$want" ]; then exit 0; fi
g++ -std=c++17 -fno-rtti -O1 -w -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/yxt.cpp" -o "$out/yxt.$$" $L/lib/libclang-cpp.so.18.1 -L$L/lib -lLLVM || exit 1
mv "$out/yxt.$$" "$out/yxt"; echo "$want" > "$out/yxt.sum"
