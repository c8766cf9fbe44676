#!/bin/bash
# One check: builds the analyser if needed, analyses /repo's current sources, judges the result.
# usage: run.sh C01
cd "$(dirname "$0")" || exit 2
exec python3 tools/check.py "$@"
