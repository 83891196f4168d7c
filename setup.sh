#!/bin/bash
# Nothing to install: every check builds what it needs from /repo.  This only proves the tools are there.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence replays
python3-vt -c 'import z3, cvc5, sympy, mpmath'
cargo +nightly --version
