#!/bin/sh
# Nothing to prepare: every check builds what it needs from /repo's working tree.
set -e
cd "$(dirname "$0")"
for t in go java python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
test -f /opt/veriftools/tla/tla2tools.jar
