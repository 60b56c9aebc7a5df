#!/bin/bash
# Builds the engine and warms the caches (standard library IR, host tools). Checks work without it.
cd "$(dirname "$0")"
SYMX_SETUP=1 python3 - <<'P'
import sys; sys.path.insert(0, ".")
import check
check.build_engine()
try:
    c = check.Check("C01", "quick"); c.rust_ir(); c.cxxbridge()
except Exception as e:
    print("warm-up:", e, file=sys.stderr)
P
exit 0
