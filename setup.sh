#!/bin/bash
# smoke test of the engine: everything needed is in the repository and in the preinstalled tools
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
mkdir -p evidence/replay
exec /opt/venv/bin/python -c "import symx; from symx import patch; patch.load_simcats(); print('engine ready')"
