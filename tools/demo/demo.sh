#!/bin/bash
# builds demo.cc against the hgdb library built in /repo (cwd) and runs it
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
inc=""
for h in algorithm functional iomanip map memory optional set sstream string tuple unordered_map unordered_set vector; do inc="$inc -include $h"; done
clang++-18 -std=c++20 -w -O0 -DFMT_HEADER_ONLY -DFMT_CONSTEVAL= -DASIO_STANDALONE -I_build/overlay/include -I_build/overlay/src -Iinclude -Isrc -I_build/src -Itools \
    -I/usr/share/verilator/include/vltstd -I"$d" $inc "$d/demo.cc" tests/vpi_dummy.cc -o "$t/demo" \
    -L_build/src -lhgdb -Wl,-rpath,"$PWD/_build/src" -lpthread > "$t/log" 2>&1 || { head -c 3000 "$t/log"; exit 9; }
cd "$t" && timeout 100 ./demo
