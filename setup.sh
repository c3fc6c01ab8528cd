#!/bin/sh
# Nothing to build: the monitors are Python. Checks that the interpreter and the code import.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
exec /opt/venv/bin/python -B -c "
import sys; sys.path.insert(0, '.')
from mon import core; core.prepare_imports(); print('setup: ok')"
