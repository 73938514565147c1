#!/bin/sh
# builds the SSA front end (bin/front); idempotent, offline
cd "$(dirname "$0")" || exit 1
exec python3-vt -c "import sys; sys.path.insert(0,'vc'); import engine; print(engine.front_binary())"
