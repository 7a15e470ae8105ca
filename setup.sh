#!/bin/sh
# nothing to build ahead of time: every check compiles /repo's current sources itself
set -e
cd "$(dirname "$0")"
mkdir -p evidence/replay
python3-vt -c "import z3; print('z3', z3.get_version_string())"
clang++-18 --version | head -1
cvc5 --version | head -1
