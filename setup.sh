#!/bin/bash
# Nothing is built ahead of time: verify that the toolchain the checks use is there.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
test -f /opt/veriftools/tla/tla2tools.jar || { echo "no TLC"; exit 1; }
test -x /opt/venv/bin/python || { echo "no python"; exit 1; }
mkdir -p "$here/evidence/replay"
echo "setup ok"
