#!/bin/bash
# Builds the demonstration against the library built in /repo/_build and runs it.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 2
trap 'rm -r "$out"' EXIT
gcc -g -O1 -w -I"$here" -I/repo/include -I/repo/src -I/repo/src/utils -I/repo/src/base_alloc "$here/demo.c" -o "$out/demo" \
  /repo/_build/static/lib/libumf.a /repo/_build/static/lib/libcoarse.a \
  -lstdc++ -lhwloc -lnuma -lrt -lpthread -ldl -lm >"$out/log" 2>&1 || { cat "$out/log"; exit 2; }
cd "$out" && timeout 120 ./demo
