#!/bin/sh
# Checks that the driver builds in every configuration and that the tools are there. Every check rebuilds what it needs.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence work
python3 - <<'P'
import sys
sys.path.insert(0, "tools")
import vlib
for v in ("full", "use_openssl", "use_rustls", "bare"):
    vlib.build(v)
P
