#!/bin/bash
# plant.sh <seed-id>: checks a planted bug in a scratch copy of /repo: the patch applies, the demo passes without and
# fails with it, and the stable tests pass (NOTEST=1 skips the tests).
S=/verif/seeded/$1; D=/tmp/plant_$1
rm -rf "$D"; mkdir -p "$D/demo"; cp -a /repo "$D/repo"; git -C "$D/repo" checkout -q -- . ; cp "$S"/* "$D/demo/"; rm -f "$D/demo/patch.diff" "$D/demo/meta.json"
cd "$D/repo" || exit 2
timeout 300 bash "$D/demo/demo.sh" > "$D/clean.log" 2>&1; c=$?
git apply "$S/patch.diff" || { echo "$1: PATCH DOES NOT APPLY"; exit 2; }
timeout 300 bash "$D/demo/demo.sh" > "$D/bug.log" 2>&1; b=$?
echo "$1: demo clean=$c bug=$b"; [ $c = 0 ] || tail -5 "$D/clean.log"; tail -2 "$D/bug.log"
if [ -z "$NOTEST" ]; then
export PYTHONPATH=$D/repo PYTHONPYCACHEPREFIX=$D/pyc MPLBACKEND=Agg MPLCONFIGDIR=$D/mpl PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
find tests -path tests/parameter_sampling -prune -o \( -name '*_test.py' -o -name 'test_*.py' \) -print | LC_ALL=C sort | xargs -P 8 -I{} bash -c 'timeout -k 10 800 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --disable-warnings --timeout=400 {} 2>&1 | grep -E "^FAILED|^ERROR|passed|failed"' > "$D/tests.log"
echo "$1: tests: $(grep -oE '[0-9]+ passed' "$D/tests.log" | awk '{s+=$1}END{print s}') passed; $(grep -c -E '^FAILED|^ERROR' "$D/tests.log") failed"; grep -E '^FAILED|^ERROR' "$D/tests.log"
fi
rm -rf "/tmp/plant_$1"
