#!/bin/bash
# Smoke test of the toolchain the checks use; nothing has to be built (PyFHD is pure Python + numba JIT).
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
PYTHONPATH=pbt:/repo /opt/venv/bin/python -W ignore -c "import core, numba, astropy, h5py, scipy, healpy, PyFHD; print('setup ok')"
