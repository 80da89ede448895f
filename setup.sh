#!/bin/bash
# Builds the interposer (the checks also build it themselves when it is missing).
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
gcc -O2 -fPIC -shared -o build/vdev.so.$$ shim/vdev.c -ldl -lpthread && mv build/vdev.so.$$ build/vdev.so
