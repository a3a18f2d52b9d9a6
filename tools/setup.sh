#!/bin/bash
# Builds the simulator runtime (the harnesses are built by the checks).
set -e
cd "$(dirname "$0")/.."
mkdir -p build/obj evidence replays
for f in rt kernel main; do g++ -std=c++17 -O2 -g -fno-builtin -c sim/$f.cpp -o build/obj/$f.o & done
wait
ls build/obj/rt.o build/obj/kernel.o build/obj/main.o
