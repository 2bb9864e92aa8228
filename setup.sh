#!/bin/bash
# Checks that the tools the verifier drives are present and byte-compiles it.  Nothing is installed.
set -e
cd "$(dirname "$0")"
python3-vt -c 'import z3, mpmath'
z3-new --version
cvc5 --version | head -1
/usr/bin/clang++-18 --version | head -1
g++ --version | head -1
python3-vt -m compileall -q dspv props
mkdir -p evidence replay
