#!/bin/sh
# nothing to build: the verifier is Python; check that its tools are present
set -e
cd "$(dirname "$0")/.."
python3-vt -c 'import z3, sys; print("z3", z3.get_version_string(), sys.version)'
command -v cvc5 >/dev/null
mkdir -p evidence
