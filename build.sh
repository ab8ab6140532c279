#!/bin/bash
# Builds the IR extractor (idempotent).
set -e
cd "$(dirname "$0")"
mkdir -p build
if [ ! -x build/irx ] || [ src/irx.cpp -nt build/irx ]; then
	clang++-18 -O1 -std=c++17 $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') \
		src/irx.cpp -o build/irx.tmp -L/usr/lib/llvm-18/lib -lLLVM-18
	mv build/irx.tmp build/irx
fi
