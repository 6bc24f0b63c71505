#!/bin/bash
# build the symbolic executor into $1 (default /tmp/fgse-build)
set -e
D=$(cd "$(dirname "$0")" && pwd); B=${1:-/tmp/fgse-build}; mkdir -p "$B"
[ "$B/fgse" -nt "$D/exec.cpp" ] && [ "$B/fgse" -nt "$D/expr.cpp" ] && [ "$B/fgse" -nt "$D/builtins.inc" ] && [ "$B/fgse" -nt "$D/exec.hpp" ] && [ "$B/fgse" -nt "$D/expr.hpp" ] && exit 0
(g++ -O1 -std=c++17 -fno-rtti -c "$D/exec.cpp" -I/usr/include/llvm-18 -I/usr/lib/llvm-18/include -o "$B/exec.o") & P=$!
g++ -O2 -std=c++17 -c "$D/expr.cpp" -o "$B/expr.o"
wait $P
g++ "$B/exec.o" "$B/expr.o" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -o "$B/fgse.tmp"
mv "$B/fgse.tmp" "$B/fgse"
