#!/bin/bash
# checks that the installed tools the framework needs are present; nothing has to be built in advance
set -e
cd "$(dirname "$0")"
clang-18 --version >/dev/null || clang++ --version >/dev/null
python3-vt -c "import z3, jsonschema"
python3-vt -m py_compile vc/*.py
rm -rf "$PWD/vc/__pycache__"
mkdir -p evidence
echo setup ok
