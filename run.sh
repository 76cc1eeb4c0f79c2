#!/bin/bash
# usage: run.sh <property> [--thorough] [--replay FILE] ...
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
exec env -u PYTHONPATH -u DAF_BUTLER_CONFIG_PATH HOME="${HOME:-/root}" LANG=C.UTF-8 \
    PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 \
    /opt/venv/bin/python "$here/vp/run.py" "$@"
