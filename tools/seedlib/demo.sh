#!/bin/bash
# exit 0 if the property holds for the library built in /repo/_build
d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d) || exit 99
trap 'rm -rf "$w"' EXIT
inc="-I/repo/_build/src/Common"; for i in Common LinAlg LinAlg/TMatrices Interfaces Algorithm Algorithm/LinearSolvers; do inc="$inc -I/repo/src/$i"; done
g++ -std=c++11 -O1 -w $inc -I"$d" "$d/demo.cpp" -o "$w/demo" -L/repo/_build/src/.libs -lipopt -Wl,-rpath,/repo/_build/src/.libs || exit 98
cd "$w" && timeout 200 ./demo
