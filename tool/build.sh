#!/bin/bash
# builds the fact extractor into /verif/build (git-ignored)
set -eu
here=$(cd "$(dirname "$0")" && pwd); out=$here/../build; mkdir -p "$out"
if [ ! -x "$out/irfacts" ] || [ "$here/irfacts.cpp" -nt "$out/irfacts" ]; then
  clang++ -O1 -std=c++17 -fno-rtti $(llvm-config-18 --cxxflags | sed 's/-O[0-9]//;s/-std=[^ ]*//;s/-DNDEBUG//') "$here/irfacts.cpp" -o "$out/irfacts.tmp" $(llvm-config-18 --ldflags) -lLLVM-18
  mv "$out/irfacts.tmp" "$out/irfacts"
fi
