#!/bin/bash
# Builds the fact extractor from the committed sources (about 20 s, offline).
set -eu
cd "$(dirname "$0")"
mkdir -p build
out=build/extract
if [ -x "$out" ] && [ "$out" -nt tool/extract.cc ]; then exit 0; fi
tmp=$(mktemp build/extract.XXXXXX)
/usr/bin/clang++-18 -O1 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include \
	-D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
	tool/extract.cc -o "$tmp" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 \
	-L/usr/lib/llvm-18/lib -lLLVM-18
chmod +x "$tmp"
mv -f "$tmp" "$out"
