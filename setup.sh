#!/bin/bash
# Nothing is installed: verifies that the tools the checks need are present.
set -e
cd "$(dirname "$0")"
java -version 2>/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -c 'import grpc_tools, tqdm, optree'
g++ --version >/dev/null
mkdir -p evidence
echo setup ok
