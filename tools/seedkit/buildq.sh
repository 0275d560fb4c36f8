#!/bin/bash
# buildq.sh OUT: the analyzer of the current directory (repository root) with the stand-in headers beside this script
set -e
here=$(cd "$(dirname "$0")" && pwd); out=$1; repo=$PWD
mkdir -p "$out/gen/mizugaki/parser" "$out/o"
g=$out/gen/mizugaki/parser
flex -Cfe -o "$g/sql_scanner_generated.cpp" src/mizugaki/parser/sql_scanner.ll
bison --defines="$g/sql_parser_generated.hpp" -o "$g/sql_parser_generated.cpp" src/mizugaki/parser/sql_parser.yy 2>/dev/null
{
  echo "$g/sql_parser_generated.cpp"; echo "$g/sql_scanner_generated.cpp"; echo "$here/mzq.cpp"
  find "$repo/src/mizugaki/analyzer" "$repo/src/mizugaki/parser" -name '*.cpp' | sort
  ls "$repo"/src/mizugaki/*.cpp
  find "$repo/src/mizugaki/ast" -name '*.cpp' | sort
} > "$out/list"
n=0; while read -r f; do n=$((n+1)); echo "$f $out/o/$n.o"; done < "$out/list" |
  xargs -P "$(nproc)" -L1 sh -c 'g++ -std=c++17 -O0 -w -DSERIALIZE_REGION -I'"$here"'/stand -I'"$here"'/shim -Iinclude -Isrc -I'"$out"'/gen -I'"$here"' -c "$0" -o "$1" || case $0 in */analyzer/*) true;; *) false;; esac'
g++ -pthread -o "$out/mzq" "$out"/o/*.o
