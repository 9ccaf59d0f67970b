#!/bin/bash
# builds demo.cpp with the library sources of the current directory and runs it in a scratch directory
d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
g++ -std=gnu++17 -w -g -O1 -fno-access-control -DBIN_WRITE_PLUGIN $DEMO_FLAGS -Iinclude -Isrc -I/usr/include/libxml2 "$d/demo.cpp" src/*.cpp -x c src/jsmn/jsmn.c -x none -lexpat -lxml2 -o "$w/demo" 2>"$w/err" || { cat "$w/err"; exit 99; }
cd "$w" && timeout 120 ./demo
