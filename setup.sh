#!/bin/sh
# Compiles the fault-injection shim used by C23/C24 (the checks rebuild it themselves if it is missing).
cd "$(dirname "$0")" || exit 1
mkdir -p build
if [ -f mc/shim.c ]; then
  gcc -O1 -shared -fPIC -o build/shim.so mc/shim.c -ldl || exit 1
fi
exit 0
