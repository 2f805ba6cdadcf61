#!/bin/bash
# Nothing to build: the checks import /repo's working tree and compile it with numba when they run.
cd "$(dirname "$0")" || exit 1
chmod +x run.sh
mkdir -p evidence replays
/opt/venv/bin/python -c "import numpy, numba, pandas, joblib, sklearn"
