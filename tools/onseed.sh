#!/bin/bash
# onseed.sh <seed-id> [PID]: run a check against a scratch copy of /repo with the planted bug (development only)
S=/verif/seeded/$1; D=/tmp/onseed_$1; P=${2:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
rm -rf "$D"; mkdir -p "$D"; git clone -q /repo "$D/repo"; git -C "$D/repo" apply "$S/patch.diff" || exit 2
mkdir -p "$D/ev"; t=$SECONDS
DEV_REPO=$D/repo DEV_EVIDENCE=$D/ev timeout 900 bash /verif/check.sh $P > "$D/out" 2>&1; rc=$?
echo "$1 $P rc=$rc $((SECONDS-t))s $(grep -c ^VIOLATION "$D/out") violations; $(grep ^VIOLATION "$D/out" | head -1 | cut -c1-${W:-200})"
[ -n "$KEEP" ] && cp "$D/out" "/tmp/onseed_$1.out"
rm -rf "/tmp/onseed_$1"
