#!/bin/bash
# Compiles the library's sources and the demonstration with ThreadSanitizer and runs them in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$T"' EXIT
ls "$R"/src/*.cpp | xargs -P 8 -I{} sh -c 'g++ -std=c++17 -O1 -g -w -fsanitize=thread -pthread -I"'"$R"'/src" -c "{}" -o "'"$T"'/$(basename {}).o"' || exit 98
g++ -std=c++17 -O1 -g -w -fsanitize=thread -pthread -rdynamic -I"$R/src" -I"$D" "$D/demo.cpp" "$T"/*.o -o "$T/demo" -lboost_thread -lboost_chrono -lboost_system -ldl || exit 98
DEMO_DIR=$T TSAN_OPTIONS=exitcode=66:halt_on_error=0 timeout -k 5 200 "$T/demo"
