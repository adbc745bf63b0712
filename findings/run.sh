#!/bin/bash
# run.sh NN : exit 0 when the demonstration of finding NN passes on /repo's working tree
d=$(dirname "$(readlink -f "$0")"); t=$(mktemp -d); trap '/bin/rm -rf "$t"' EXIT
f=$(ls "$d/$1"-*.cpp) || exit 2
cxx=$(sed -n "s,^// CXX: ,,p" "$f"); "${cxx:-clang++}" -std=gnu++17 -w -g -O1 -fsanitize=address,undefined -fno-sanitize=null -fno-sanitize-recover=all -I/repo -I"$d" $(sed -n 's,^// FLAGS:,,p' "$f") "$f" -o "$t/a" 2>"$t/log" || { echo "does not compile:"; grep -m3 error "$t/log"; exit 1; }
ulimit -t 30; ASAN_OPTIONS=detect_leaks=1 timeout 60 "$t/a" >"$t/out" 2>&1; rc=$?; [ $rc = 0 ] || { grep -m2 -E 'ERROR|runtime error|line|Assert|LeakSan' "$t/out"; echo "rc $rc"; exit 1; }
