#!/bin/bash
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -B - <<'PY'
import sys
sys.path.insert(0, ".")
from vm import boot
print(boot.build_exts("opt"))
print(boot.build_exts("asan"))
PY
