#!/bin/bash
# Nothing to build ahead: every check imports /repo's working tree when it runs.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python - <<'PY'
import ast, glob
for f in sorted(glob.glob("mc/*.py") + glob.glob("mc/checks/*.py")):
    ast.parse(open(f, encoding="utf8").read(), f)
print("harness sources parse")
PY
