#!/bin/bash
# Builds demo.cc (beside this file) with the sources of the repository in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
S=$(find DPPIR -name '*.cc' ! -name '*_test.cc' ! -name main.cc ! -name gen_config.cc)
F="-std=c++17 -O1 -g1 -w -fsanitize=address,undefined -fno-sanitize=alignment,vptr -fno-sanitize-recover=all -fno-access-control -I."
i=0; for s in $S "$D/demo.cc"; do i=$((i+1)); echo "$s $T/$i.o"; done | xargs -P 8 -L 1 bash -c "g++ $F -c \"\$0\" -o \"\$1\"" || exit 99
g++ $F "$T"/*.o -lsodium -lpthread -o "$T/demo" || exit 99
cd "$T"
export ASAN_OPTIONS=detect_leaks=0
timeout 120 ./demo
