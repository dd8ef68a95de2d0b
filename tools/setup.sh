#!/bin/bash
# nothing to build: checks that the toolchain answers
set -e
/opt/venv/bin/python -c "import numpy, sys; print(sys.version)"
java -version 2>&1 | head -1
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p "$(dirname "$0")/../evidence"
