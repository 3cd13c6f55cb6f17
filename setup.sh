#!/bin/bash
# Builds every monitor in the builds the quick checks use (offline, from /repo's tree).
cd "$(dirname "$0")"
exec python3 - <<'P'
import sys
sys.path.insert(0, ".")
import check
ok = check.build("checked", [], 800) and check.build("release", [], 800)
P
