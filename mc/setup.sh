#!/bin/sh
# Nothing to prebuild: every check compiles its harness from /verif and /repo/include. Verify the tools are here.
set -e
g++-13 --version >/dev/null
clang++-18 --version >/dev/null
python3 -c 'import json, concurrent.futures'
mkdir -p build evidence
