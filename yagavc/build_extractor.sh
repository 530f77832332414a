#!/bin/bash
# builds /verif/build/yagax when it is missing or older than its source
set -e
D=$(cd "$(dirname "$0")" && pwd); B="$D/../build"; mkdir -p "$B"
if [ ! -x "$B/yagax" ] || [ "$D/extract.cpp" -nt "$B/yagax" ]; then
  g++ -O1 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include "$D/extract.cpp" -o "$B/yagax.tmp.$$" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
  mv "$B/yagax.tmp.$$" "$B/yagax"
fi
