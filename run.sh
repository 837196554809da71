#!/bin/bash
# run.sh <property id> [quick|thorough]   or   run.sh replay <file>
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=${MC_REPO:-/repo}:$PWD PYTHONUTF8=1
exec python -m mc.harness "$@"
