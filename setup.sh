#!/bin/bash
# Nothing is compiled: this only checks that the toolchain the checks rely on is there.
cd "$(dirname "$0")" || exit 1
set -e
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
PYTHONPATH=/repo /opt/venv/bin/python -c 'import starlette, anyio, trio, httpx'
mkdir -p evidence replays
echo ok
