#!/bin/bash
# Nothing to build: check that the interpreter, hypothesis and the code under test load.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 1
exec /opt/venv/bin/python -B rsverif/runner.py --list C02 >/dev/null
