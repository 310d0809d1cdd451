#!/bin/bash
# usage: build.sh BUILD_DIR
set -e
A=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
mkdir -p "$1/approve"
gcc -O2 -static -o "$1/approve/stub" "$A/stub.c"
gcc -O2 -fPIC -shared -o "$1/approve/preload.so" "$A/preload.c" -ldl
