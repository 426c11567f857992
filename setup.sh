#!/bin/bash
# Nothing is built: the checks import the code from /repo's working tree.
# Fails if that cannot be imported here.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
py="${KCMON_PYTHON:-/opt/venv/bin/python}"
cd "$here" && exec "$py" -B -c "from kcmon import gen, observe, work; print('ready')"
