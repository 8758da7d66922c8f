#!/bin/bash
# Nothing to build: POSYDON is pure Python and Hypothesis is vendored.  Verify that both import.
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo:$PWD/vendor /opt/venv/bin/python -c "import hypothesis, numpy, pandas, posydon; print('ok', hypothesis.__version__)"
