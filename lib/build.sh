#!/bin/bash
# build.sh TARGET...: build drivers from /repo's working tree into /verif/build
set -e
H=$(cd "$(dirname "$0")" && pwd)
B=${VERIF_BUILD:-/verif/build}
mkdir -p $B
cd $B
if [ ! -f build.ninja ] || [ "$RECONF" = 1 ]; then
  cmake -G Ninja -DREPO=${REPO:-/repo} "$(cd "$H/../harness" && pwd)" > cmake.log 2>&1 || { cat cmake.log; exit 3; }
else
  cmake . > cmake.log 2>&1 || { cat cmake.log; exit 3; }
fi
ninja "$@" > ninja.log 2>&1 || { tail -40 ninja.log; exit 3; }
