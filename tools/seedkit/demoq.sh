#!/bin/bash
# Analyzes the texts of cases.txt (catalog, settings and text in hexadecimal, expected answer) with the
# analyzer of the current directory and compares. Everything is built in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/kit" && tar xzf "$here/kit.tgz" -C "$d/kit" || exit 2
bash "$d/kit/buildq.sh" "$d/out" > "$d/log" 2>&1 || { tail -20 "$d/log"; exit 2; }
cut -f1-2 "$here/cases.txt" | tr '\t' '\n' > "$d/in"
cut -f3- "$here/cases.txt" > "$d/want"
"$d/out/mzq" < "$d/in" | sed -n 'n;p' > "$d/got"
diff "$d/want" "$d/got" && echo same
