#!/bin/bash
# builds demo.cpp against the library in /repo (cwd) and runs it
here=$(cd "$(dirname "$0")" && pwd); tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
B=@B@
g++ -std=c++17 -O1 -g @D@ -I src -I $B/include "$here/demo.cpp" -L $B -lg3log -Wl,-rpath,$PWD/$B -lpthread -o "$tmp/demo" || exit 3
cd "$tmp" && timeout @T@ ./demo "$tmp"
