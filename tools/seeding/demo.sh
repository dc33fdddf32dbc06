#!/bin/bash
# builds demo.cc against the libraries built in the current directory and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=gnu++14 -w -fpermissive -DZMDP_VERSION=x -I"$R/include" -I"$R/src/main" -I"$R/src/common" -I"$R/src/parsers" -I"$R/src/pomdpModels/lifeSurvey" -I"$D" "$D/demo.cc" "$R"/src/main/obj/*/solverUtils.o "$R"/src/main/obj/*/TestDriver.o -Wl,--start-group "$R"/src/*/lib/*/*.a "$R"/src/*/*/lib/*/*.a -Wl,--end-group -o "$T/demo" > "$T/log" 2>&1 || { head -30 "$T/log"; exit 3; }
mkdir "$T/w"; timeout 60 "$T/demo" "$T/w" | tail -20; exit ${PIPESTATUS[0]}
