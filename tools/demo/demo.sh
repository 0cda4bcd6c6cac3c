#!/bin/bash
# Run with the repository as working directory. Exit 0: the property holds in this scenario.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
c="clang++ -std=c++14 -O0 -w $FLAGS -DFMT_DEPRECATED_OSTREAM -isystem /usr/include/eigen3 -I$PWD -I$d"
find "$PWD/altro" -name '*.cpp' ! -name main.cpp ! -name profile_entry.cpp | sort | sed 's/.*/#include "&"/' > "$t/all.cpp"
$c -c "$t/all.cpp" -o "$t/all.o" & a=$!
$c -c altro/common/profile_entry.cpp -o "$t/entry.o" & b=$!
$c -c "$d/demo.cpp" -o "$t/demo.o" || exit 2
wait $a || exit 2
wait $b || exit 2
clang++ $FLAGS "$t"/*.o -lfmt -pthread -o "$t/demo" || exit 2
cd "$t" && timeout 200 ./demo
