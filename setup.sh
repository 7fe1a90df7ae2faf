#!/bin/bash
# Nothing is built: checks interpret /verif/spec with TLC and import the code from /repo. This only tests the tools.
set -e
cd "$(dirname "$0")"
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -c "import numpy, scipy, pandas, sys; sys.path.insert(0, '/repo'); import surfalize"
