#!/bin/sh
# builds the analysers into /verif/build
set -e
D="$(cd "$(dirname "$0")/.." && pwd)"; mkdir -p "$D/build"
FL="$(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') -fexceptions"
for t in effects vpai; do
	g++ -O2 -w -std=c++17 $FL "$D/engine/$t.cpp" -o "$D/build/$t.tmp.$$" /usr/lib/llvm-18/lib/libLLVM-18.so
	mv "$D/build/$t.tmp.$$" "$D/build/$t"
done
