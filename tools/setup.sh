#!/bin/bash
# nothing is prebuilt: every check extracts and compiles from /repo's current tree
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
/opt/veriftools/pyvenv/bin/python3 -c "import z3"
command -v clang++ opt g++ >/dev/null
