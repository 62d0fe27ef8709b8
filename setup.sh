#!/bin/bash
# nothing to build ahead: every check extracts what it verifies from /repo's current tree.  Self-test of the term layer.
cd "$(dirname "$0")" || exit 1
for t in python3-vt clang++-18 cvc5; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3-vt eng/test_terms.py 400 >/dev/null || { echo "term layer self-test failed"; exit 1; }
exit 0
