#!/bin/bash
# Nothing to install: every check builds what it needs from /repo's current tree. Only checks that the tools are there.
cd "$(dirname "$0")" || exit 1
for t in java g++ make python3 git; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
[ -f /opt/veriftools/tla/tla2tools.jar ] || { echo "missing TLC"; exit 1; }
mkdir -p build evidence
echo ok
