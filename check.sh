#!/bin/bash
# usage: check.sh <property-id> [quick|thorough]
# Runs one check against the working tree of /repo.  Exit 0: held; 1: VIOLATION; 2: machinery error.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export LC_ALL=C.UTF-8 TZ=UTC PYTHONHASHSEED=0 PYXRC=/opt/vp/pyxrc
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1
export VERIF_SEED=${VERIF_SEED:-1}
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_HOME=$here
exec /opt/venv/bin/python -X faulthandler "$here/harness/main.py" "$1" "$VERIF_TIER"
