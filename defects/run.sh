#!/bin/bash
# Builds the defect histories against /repo/_build and runs all (or the named ones).
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
g++ -g -fsanitize=address,undefined -I/repo/include -I/repo/src -I/repo/_build "$here/defects.cpp" -o "$d/defects" /repo/_build/libE57Format-d.a -lxerces-c || exit 2
cd "$d"
for c in ${*:-$(ASAN_OPTIONS=detect_leaks=0 ./defects)}; do
  out=$(ASAN_OPTIONS=detect_leaks=0 timeout 60 ./defects $c 2>&1); r=$?
  [ $r = 0 ] && echo "holds   $c" || echo "BROKEN  $c ($r): $(echo "$out" | grep -v '^ *#' | head -3 | tr '\n' ' ' | cut -c1-220)"
done
