#!/bin/bash
# builds the extractor if needed (cached under /verif/.build, git-ignored)
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
B=${VP_BUILD:-$V/.build}
mkdir -p "$B"
H=$(sha256sum "$V/extractor/vx.cpp" | cut -c1-16)
if [ ! -x "$B/vx-$H" ]; then
  clang++-18 -O1 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include "$V/extractor/vx.cpp" -o "$B/vx-$H.tmp.$$" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
  mv "$B/vx-$H.tmp.$$" "$B/vx-$H"
fi
echo "$B/vx-$H"
