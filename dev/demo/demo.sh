#!/bin/bash
# Links demo.cpp with the libraries as built in /repo and runs it in a scratch directory.
set -u
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
clang++-18 -O1 -w -include /opt/vp/missing/mbedtls3.h -std=c++20 -DSQLITE_ENABLE_NORMALIZE -I"$R" -I"$R/mbedtls/include" -I"$D" \
    "$D/demo.cpp" "$D/shim.cpp" -o "$T/demo" -Wl,--wrap=sqlite3_prepare_v2 -L"$R" -Wl,--start-group -lbedrock -lstuff -Wl,--end-group \
    /usr/lib/x86_64-linux-gnu/libsqlite3.a -ldl -lpcre2-8 -lpthread -lmbedtls -lmbedx509 -lmbedcrypto -lz -lzstd -lm || exit 2
cd "$T" && timeout 120 ./demo
