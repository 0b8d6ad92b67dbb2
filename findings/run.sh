#!/bin/bash
# Builds the library from SRC (default /repo/src/lpaggreg) in a scratch folder and runs every reproduction.
here=$(cd "$(dirname "$0")" && pwd); src=${1:-/repo/src/lpaggreg}; d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
g++ -std=gnu++11 -g -fsanitize=address,undefined -fno-sanitize-recover=undefined -D_GLIBCXX_ASSERTIONS -I"$src/headers" "$here/repro.cpp" "$src"/sources/*.cpp -o "$d/r" 2>"$d/log" || { cat "$d/log"; exit 2; }
g++ -std=gnu++11 -DLINK_PLUS -I"$src/headers" "$here/repro.cpp" "$src"/sources/*.cpp -o "$d/rp" >/dev/null 2>&1 || echo "tradeoff_plus: DEFECT (does not link)"
for c in headers; do for f in "$src"/sources/*.cpp; do g++ -std=gnu++11 -DPARTITION_COMPARE_QUALITY -fsyntax-only -I"$src/headers" "$f" 2>/dev/null || echo "config PARTITION_COMPARE_QUALITY: DEFECT ($(basename $f) does not compile)"; done; done
for n in quality_eq tradeoff_cmp tradeoff_copy path_unbalanced path_twice normalize_root_first normalize_ready normalize_uniform single_node aggregate_hierarchy sweep_same_ends sweep_tiny_threshold query_empty query_min query_opt_large precision d_optimal tradeoff_plus; do
  out=$(ulimit -s 8192; ASAN_OPTIONS=detect_leaks=0 timeout 60 "$d/r" $n 2>&1); rc=$?
  [ $rc = 0 ] && echo "$n: ok" || echo "$n: DEFECT ($(echo "$out" | grep -m1 -E 'defect|runtime error|ERROR|Assert|unknown' | cut -c1-150))"
done
