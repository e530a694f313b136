#!/bin/bash
# exit 0: the demonstrated behaviour is right; nonzero: it is not
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$d/demo.py"
