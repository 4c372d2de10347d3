#!/bin/bash
# Nothing needs to persist: every check compiles what it needs from /repo. This only
# verifies the tools are there.
set -e
command -v java g++ python3 >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p "$(dirname "$0")/../build" "$(dirname "$0")/../evidence"
echo setup ok
