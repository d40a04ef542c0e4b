#!/bin/bash
# Builds the fault injector used by S02.
cd "$(dirname "$0")" || exit 2
mkdir -p target
[ target/fault.so -nt harness/csrc/fault.c ] || gcc -shared -fPIC -O1 -o target/fault.so harness/csrc/fault.c -ldl
