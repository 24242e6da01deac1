#!/bin/bash
# plantall.sh ids... : tools/plant.sh for several planted bugs, four at a time
cd "$(dirname "$0")"; printf '%s\n' "$@" | xargs -P 4 -I{} bash plant.sh {}
