#!/bin/bash
# Parses the texts of cases.txt (options, text in hexadecimal, expected answer) with the parser of
# the current directory and compares. Everything is built in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/kit" && tar xzf "$here/kit.tgz" -C "$d/kit" || exit 2
bash "$d/kit/build.sh" "$d/out" > "$d/log" 2>&1 || { tail -20 "$d/log"; exit 2; }
cut -f1-2 "$here/cases.txt" | sed 's/^/P /; s/\t/ /' > "$d/in"
cut -f3- "$here/cases.txt" > "$d/want"
"$d/out/mzh" < "$d/in" > "$d/got"
diff "$d/want" "$d/got" && echo same
