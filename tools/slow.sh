#!/bin/bash
# scenarios by wall time (development helper)
cd "$(dirname "$0")/.."; bash check.sh "$@" -v 2>&1 | sed -nE 's/^ *\[([^]]*)\] .*wall=([0-9.]+)s.*/\2 \1/p' | sort -rn | head -${N:-12}
