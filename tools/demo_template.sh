#!/bin/bash
# builds demo.cpp against the library of the tree in $PWD and runs it in a scratch directory
set -e
R=$PWD; D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/a/b" "$W/results"; ln -s "$R/data" "$W/data"
g++ -std=c++20 -O1 -w -fno-access-control -I"$R/src" "$D/demo.cpp" -o "$W/demo" -Wl,--start-group $(find "$R/_build/bin" -name 'lib*.a' ! -name libfoo.a) -Wl,--end-group -pthread
cd "$W/a/b"
timeout 200 "$W/demo"
