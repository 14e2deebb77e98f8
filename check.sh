#!/bin/bash
# check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
ulimit -v 28000000 2>/dev/null
exec python3-vt engine/run.py "$@"
