#!/bin/bash
# Builds the extractor into /verif/build (git-ignored); skipped when it is up to date.
set -e
cd "$(dirname "$0")"
B=../build
mkdir -p $B
exec 9> $B/lock
flock 9
if [ ! -x $B/spocfacts ] || [ spocfacts.cpp -nt $B/spocfacts ]; then
    clang++ -O1 -std=c++17 -fno-rtti $(llvm-config-18 --cppflags) -w spocfacts.cpp -o $B/spocfacts.tmp \
        -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM.so.18.1
    mv $B/spocfacts.tmp $B/spocfacts
fi
