#!/bin/bash
# litmus tests for the memory model: run.sh [ENGINE]
d=$(cd "$(dirname "$0")" && pwd); eng=${1:-$d/../build/vpengine}; t=$(mktemp -d); trap "rm -rf $t" EXIT
bad=" 0 3 4 8 9 13 17 19 21 22 25 26 29 31 "; rc=0
one() { clang++ -std=c++20 -w -DT=$1 -I$d/../harness -O1 -Xclang -disable-llvm-passes -g -emit-llvm -c $d/litmus.cpp -o $t/$1.bc && $eng --jobs=1 --out=$t/$1.json $t/$1.bc >/dev/null 2>$t/$1.err; r=$?; w=0; case "$bad" in *" $1 "*) w=1;; esac; [ $r = $w ] || { echo "litmus $1: exit $r, expected $w"; tail -2 $t/$1.err; grep -o '"errors":.*' $t/$1.json; return 1; }; }
for i in $(seq 0 31); do one $i || rc=1; done
[ $rc = 0 ] && echo "litmus: 32 tests as expected"; exit $rc
