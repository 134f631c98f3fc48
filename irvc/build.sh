#!/bin/bash
# builds the verifier into $1 (default /verif/irvc/irvc)
cd "$(dirname "$0")" || exit 2
out=${1:-./irvc}
tmp=$(mktemp "$out.XXXXXX") || exit 2
clang++-18 -O2 -std=c++17 -w $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') -fexceptions irvc.cpp -o "$tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 && chmod 755 "$tmp" && mv "$tmp" "$out"
