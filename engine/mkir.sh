#!/bin/sh
# mkir.sh SCENARIO.cpp OUT.bc : compile a scenario file against /repo's current sources to analysable IR
set -e
/usr/bin/clang++-18 -std=c++17 -O1 -Xclang -disable-llvm-passes -g -fstandalone-debug -fno-exceptions -fno-access-control -fno-threadsafe-statics -fno-vectorize -ffp-contract=off -w ${VP_DEFS--DVP_WHITE} -I"${VERIF_REPO:-/repo}/src" -I"$(dirname "$0")/../scenarios" -emit-llvm -c "$1" -o "$2.0.bc"
/usr/bin/opt-18 -passes=mem2reg "$2.0.bc" -o "$2"
rm -f "$2.0.bc"
