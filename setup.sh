#!/bin/bash
# Builds the simulators from the committed files and /repo's working tree (checks do the same if needed)
set -e
cd "$(dirname "$0")"
exec python3 -B - <<'P'
import sys
sys.path.insert(0, ".")
from lib import cworld
cworld.build()
for m in ("threads", "pyworld"):
    try:
        mod = __import__("lib." + m, fromlist=["x"])
    except ImportError:
        continue
    mod.build()
print("ready")
P
