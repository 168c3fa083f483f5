#!/bin/bash
# builds the library from the current tree with its mock timer and runs demo.c
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
gcc -O0 -g -w -fwrapv -pthread -D_GNU_SOURCE -DJENT_CONF_ENABLE_INTERNAL_TIMER -DJENT_CONF_ENABLE_MOCK_TIMER \
    -I"$PWD" -I"$PWD/src" -I"$PWD/arch" -I"$d" $(cat "$d/cflags" 2>/dev/null) "$d/demo.c" src/*.c arch/*.c -o "$t/demo" || exit 3
cd "$t" && timeout 120 ./demo
