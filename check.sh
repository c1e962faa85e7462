#!/bin/bash
# check.sh <property> [quick|thorough | --replay file]
# check.sh setup: builds the library which injects faults (C11 builds it itself if needed)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
if [ "$1" = setup ]; then
  mkdir -p evidence && /opt/venv/bin/python -c 'import pluggy, sys; sys.path.insert(0, "mc"); import preload; preload.build()'; exit
fi
exec /opt/venv/bin/python -W ignore mc/run.py "$@"
