#!/bin/bash
# Unpack the (pure offline) hypothesis wheel next to the harness.  Checks do the
# same on demand if this directory is missing, so setup is only a warm-up.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '$here')
from vlib import deps; print('hypothesis from', deps.ensure())"
