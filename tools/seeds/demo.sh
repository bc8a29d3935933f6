#!/bin/bash
# Compiles the demonstration against the library that was built in /repo and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -g -w -pthread -rdynamic -I"$R/src" -I"$D" "$D/demo.cpp" -o "$T/demo" -L"$R/_build" -ldbus-asio -Wl,-rpath,"$R/_build" -lboost_thread -lboost_chrono -lboost_system -ldl || exit 98
DEMO_DIR=$T timeout -k 5 200 "$T/demo"
