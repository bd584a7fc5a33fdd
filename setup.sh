#!/bin/bash
# Nothing is compiled: the checks import /repo's working tree and run TLC.
set -e
cd "$(dirname "$0")"
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -c "import numpy, scipy"
