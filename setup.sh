#!/bin/bash
# builds the extractor and the harness (offline); checks rebuild what changed in /repo
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, ".")
import check
exe, hooks, err = check.build_tools()
print(exe, hooks, err or "")
sys.exit(0 if exe else 1)
P
