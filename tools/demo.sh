#!/bin/bash
# compiles the small program beside this script against the built library and runs it
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
C=/opt/gismo-core; B=/repo/_build
g++ -DgsKLShell_DATA='"/opt/gismo-core/optional/gsKLShell/filedata/"' -I$C/src -I$C/external -I$B -I$C/optional -w -O1 -std=c++14 \
    "$here/demo.cpp" -o "$tmp/demo" -L$B/lib -lgismo -Wl,-rpath,$B/lib -lz -lpthread || exit 3
cd "$tmp" && timeout 120 ./demo
