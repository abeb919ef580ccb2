#!/bin/bash
# Offline sanity of the toolchain; every check builds what it needs from /repo itself.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -h >/dev/null 2>&1 || true
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -c "import numpy, scipy"
echo setup ok
