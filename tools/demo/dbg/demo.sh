#!/bin/bash
# builds /repo's (cwd) sources with demo.cc, a simulator and a server that are kept in memory, and runs it
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
cp -r src include "$t/" && cp _build/overlay/src/* "$t/src/" && cp -r _build/overlay/include/. "$t/include/" 2>/dev/null
cp _build/src/jschema.hh "$t/src/" || exit 9
cp "$d/server.hh" "$d/thread.hh" "$t/src/" && cp -r "$d/sxthread.hh" "$d/asio.hpp" "$d/websocketpp" "$t/include/" || exit 9
inc=""
for h in algorithm functional iomanip map memory optional set sstream string tuple unordered_map unordered_set vector; do inc="$inc -include $h"; done
F="-std=c++20 -w -O0 -DFMT_HEADER_ONLY -DFMT_CONSTEVAL= -DASIO_STANDALONE -I$t/include -I$t/src -I/usr/share/verilator/include/vltstd -I$d $inc"
cd "$t" || exit 9
for s in debug scheduler namespace monitor rtl proto symbol db eval util log perf; do
    clang++-18 $F -c "src/$s.cc" -o "$s.o" > "$s.log" 2>&1 &
done
for s in demo vpi_stubs; do clang++-18 $F -c "$d/$s.cc" -o "$s.o" > "$s.log" 2>&1 & done
wait
clang++-18 *.o -o demo -lpthread > link.log 2>&1 || { head -c 3000 *.log; exit 9; }
timeout 60 ./demo
