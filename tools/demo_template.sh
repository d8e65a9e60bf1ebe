#!/bin/bash
# Builds demo.cpp against the library in /repo/_build and runs it in a scratch directory.
set -u
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
B=/repo/_build
g++ -std=c++14 -O1 -g -w -include stdint.h -I/repo/lib/include -I$B/lib/include -I/repo/parser/include -I/repo/client_utils/include -I/repo/client -I$B \
  "$D/demo.cpp" -o "$T/demo" $B/client/libhawktracer_client.a -L$B/lib -L$B/parser -L$B/client_utils -lhawktracer_client_utils -lhawktracer_parser -lhawktracer \
  -Wl,-rpath,$B/lib:$B/parser:$B/client_utils -lpthread || exit 3
cd "$T"
timeout -s KILL 120 ./demo
