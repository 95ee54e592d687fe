#!/bin/bash
# Nothing to build: checks that the tools are there and that /repo can be imported.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="/repo:$PWD" /opt/venv/bin/python -c "import pbt.boot, hypothesis, numpy, scipy, pySOT.strategy; print('ready')"
