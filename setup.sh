#!/bin/bash
# nothing to compile: verify the toolchain the checks rely on
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
exec /opt/venv/bin/python -c "import numpy, scipy, sklearn, xgboost, fasttext, pandas"
