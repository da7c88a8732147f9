#!/bin/bash
# The checks build what they need from /repo themselves; this only confirms that the tools are there.
set -e
for t in tlc clang-17 clang++-17 cmake ninja python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3 -m py_compile harness/*.py
