#!/bin/bash
# Nothing to download; checks that the interpreter and the code under test import.
set -e
cd "$(dirname "$0")"
mkdir -p evidence/replay build
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python -W ignore -c 'import karabo_data, h5py, numpy, pandas, xarray, dask'
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=.:/repo /opt/venv/bin/python -W ignore -c "from kdmon.core import shim_path; print(shim_path())"
