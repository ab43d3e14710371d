#!/bin/bash
# Nothing to build: the specifications are run by TLC, the harness by Python.
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
PYTHONPATH=/repo python -B -c "import pyDeltaRCM.model, netCDF4, yaml, numba"
java -version 2>/dev/null
ls /opt/veriftools/tla/tla2tools.jar >/dev/null
