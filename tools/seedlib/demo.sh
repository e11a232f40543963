#!/bin/bash
# exit 0: the property holds for the demonstrated history; anything else: it does not. Run with cwd /repo after the build.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O0 -g -Iinclude -I_build/include -I"$D" "$D/demo.cpp" -o "$T/demo" _build/lib/librotor.a -lboost_date_time -lpthread || exit 98
timeout 60 "$T/demo"
