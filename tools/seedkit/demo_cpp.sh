#!/bin/bash
# Compiles demo.cpp against the sources of the current directory in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
inc=()
[ -f "$here/kit.tgz" ] && { mkdir "$d/kit" && tar xzf "$here/kit.tgz" -C "$d/kit" && inc=(-I"$d/kit/shim"); }
src=$(sed -n 's,^// sources: *,,p' "$here/demo.cpp")
objs=()
if [ "$src" = parser ]; then
  cp "$here/demo.cpp" "$d/kit/mzh.cpp"
  bash "$d/kit/build.sh" "$d/out" > "$d/log" 2>&1 || { tail -20 "$d/log"; exit 2; }
  "$d/out/mzh"
  exit
fi
if [ "$src" = tree ]; then
  find src/mizugaki/ast -name '*.cpp' | sort | awk -v d="$d" '{ print $0, d "/" NR ".o" }' |
    xargs -P "$(nproc)" -L1 sh -c 'g++ -std=c++17 -w '"${inc[*]}"' -Iinclude -Isrc -c "$0" -o "$1"' 2> "$d/log" || { tail -20 "$d/log"; exit 2; }
  src=; objs=("$d"/*.o)
fi
g++ -std=c++17 -w "${inc[@]}" -Iinclude -Isrc -o "$d/demo" "$here/demo.cpp" "${objs[@]}" $src 2> "$d/log" || { tail -20 "$d/log"; exit 2; }
"$d/demo"
