#!/bin/bash
# nothing to build: the verifier is Python; check the tools it drives are present
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence replays
command -v clang++ cvc5 python3-vt >/dev/null
python3-vt -c 'import z3, numpy; from gbsv import exe, solve, native'
echo ready
