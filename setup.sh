#!/bin/bash
# Builds the operating-system shim; the checks rebuild it themselves if it is missing.
set -e
cd "$(dirname "$(readlink -f "$0")")"
/opt/venv/bin/python -S -c "import sys; sys.path.insert(0, 'sim'); import boot; print(boot.build_shim())"
