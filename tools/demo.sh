#!/bin/bash
# Exit 0 when the library behaves, nonzero when it does not. Run in /repo after the build.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'find "$T" -delete' EXIT
g++ -std=c++14 -O1 -w -fopenmp -I/repo/inc -I"$D" "$D/demo.cpp" /repo/_build/Release/libotfft.a -o "$T/demo" -lpthread || exit 2
OMP_NUM_THREADS=4 timeout 250 "$T/demo"
