#!/bin/bash
# Nothing to compile: the checks are Python (standard library only) and import /repo/src directly.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence out
PYTHONDONTWRITEBYTECODE=1 python3 - <<'PY'
import ast, pathlib
for p in pathlib.Path('mc').rglob('*.py'):
    ast.parse(p.read_text())
PY
