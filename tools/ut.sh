#!/bin/bash
# run selected unit tests the way /opt/vp/test.sh does: ut.sh utils/test_x.py ...
cd /repo; . /opt/vp/env.sh
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
"$PY" -m pytest -q -o addopts= -p no:cacheprovider --basetemp="$D/tmp" --timeout=300 --disable-warnings "${@/#/posydon/unit_tests/}" 2>&1 | tail -15
