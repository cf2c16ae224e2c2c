#!/bin/bash
# builds kfacts (offline, against the installed clang 18 libraries)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out="$here/../build"
mkdir -p "$out"
if [ -x "$out/kfacts" ] && [ "$out/kfacts" -nt "$here/extract.cc" ]; then exit 0; fi
tmp="$out/kfacts.$$"
/usr/bin/clang++ -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include \
  -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/extract.cc" -o "$tmp" \
  -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM-18.so
mv "$tmp" "$out/kfacts"
