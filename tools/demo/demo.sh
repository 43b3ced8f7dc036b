#!/bin/bash
# Run with cwd /repo after the build: exit 0 if the behaviour is right, nonzero otherwise.
set -u
here=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d) || exit 3
trap 'rm -rf -- "$dir"' EXIT
export LC_ALL=C.UTF-8 TZ=UTC
g++ -std=gnu++17 -O1 -w -I"$PWD/_build/shim" -I"$PWD" -I"$PWD/_build" -isystem /usr/include/martchus-c++utilities \
    -DCHRONO_UTILITIES_TIMESPAN_INTEGER_SCALE_OVERLOADS -DCPP_UTILITIES_USE_NATIVE_FILE_BUFFER -DTAG_PARSER_STATIC \
    "$here/demo.cpp" -o "$dir/demo" "$PWD/_build/libtagparser.a" -lmartchus-c++utilities -lz || exit 3
cd "$dir" || exit 3
timeout 120 ./demo
