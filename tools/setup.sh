#!/bin/bash
# nothing to build: the checks are Python and import the library from /repo's working tree
cd "$(dirname "$(readlink -f "$0")")/.." || exit 1
mkdir -p evidence replays
exec /opt/venv/bin/python -c "import numpy, scipy, jax; print('ok')"
