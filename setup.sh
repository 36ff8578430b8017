#!/bin/bash
# Nothing to build: the specifications are interpreted by TLC, the harness by /opt/venv/bin/python.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -c 'import numpy, scipy, pydantic'
echo setup ok
