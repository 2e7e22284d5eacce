#!/bin/bash
# builds the IR dumper (the only compiled part of the verifier)
set -e
cd "$(dirname "$0")"; mkdir -p build evidence
L=/usr/lib/llvm-18/bin/llvm-config
clang++-18 -O1 $($L --cxxflags) engine/irdump.cpp -o build/irdump $($L --ldflags --libs --system-libs core irreader analysis demangle support) -w
