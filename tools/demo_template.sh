#!/bin/bash
# Builds demo.cpp (beside this file) against the library built in /repo and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
g++ -std=gnu++14 -O0 -w -DNDEBUG -DGS_LIN -D_LINUX -DUNICODE -D_UNICODE -DBUILD_MVR_XCHANGE -DDONT_USE_XERCES_AS_XMLLIB \
    -I/repo/src -I/repo/mdns_cpp/include -I"$D" "$D/demo.cpp" -o "$W/demo" /repo/_build/libs/libMvrGdtf.a /repo/_build/libs/libmdns_cpp.a -luuid -lpthread || exit 3
mkdir "$W/home" && cd "$W" && HOME="$W/home" timeout 120 "$W/demo" "$W" > "$W/out" 2>&1; rc=$?
grep -a "^DEMO" "$W/out"; exit $rc
