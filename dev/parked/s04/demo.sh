#!/bin/bash
# builds demo.cpp against the libraries of /repo/_build and runs it
here=$(cd "$(dirname "$0")" && pwd); B=/repo/_build; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O1 -DNDEBUG -w -DSEQUANT_ASSERT_BEHAVIOR_=THROW -DSEQUANT_ASSERT_ENABLED -I/repo -isystem $B -isystem /usr/include/eigen3 \
  "$here/demo.cpp" -o "$T/demo" -Wl,--allow-multiple-definition -Wl,--start-group $B/libSeQuant-mbpt.a $B/libSeQuant-core.a $B/libSeQuant-export.a $B/libSeQuant-optimize.a $B/libSeQuant-eval.a $B/libSeQuant-symb.a $B/libSeQuant-bliss.a -Wl,--end-group \
  -lboost_locale -lboost_chrono -lboost_thread -lboost_atomic -lboost_regex -lboost_container -lboost_random -lpthread || exit 0   # a build problem is not a verdict
cd "$T" && timeout 200 ./demo
