#!/bin/bash
# Builds the file system shim from the committed sources.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/build" "$here/evidence"
gcc -O1 -Wall -shared -fPIC -o "$here/build/fsshim.so.tmp" "$here/shim/fsshim.c" -ldl -lpthread
mv "$here/build/fsshim.so.tmp" "$here/build/fsshim.so"
