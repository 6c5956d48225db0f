#!/bin/bash
# Regenerates /verif/model from the library in /repo/_build (author's tool; not used by any check).
set -e
cd "$(dirname "$0")/.."
python3 tools/mknames.py
N=$(grep -c '^E ' model/names.txt)
mkdir -p build
g++ -O2 -I/repo/_build/include tools/mkmodel.cpp /repo/_build/libcppp-reiconv.a -o build/mkmodel
build/mkmodel "$N" build/repertoire.bin build/charsets.bin model/names.txt
xz -9e -c build/repertoire.bin > model/repertoire.bin.xz
xz -9e -c build/charsets.bin > model/charsets.bin.xz
ls -l model
