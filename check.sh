#!/bin/bash
# check.sh PROPERTY : run one property's simulations against /repo's working tree
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh >/dev/null 2>&1
PY=${SIM_PYTHON:-/opt/venv/bin/python}
exec "$PY" -m sim.check "$1"
