#!/bin/bash
# Nothing to install: every check compiles what it needs from /repo itself.
# Checks run in separate copies, so nothing built here would be seen by them;
# this only verifies that the tools the checks need are present.
set -e
cd "$(dirname "$0")"
for t in g++ protoc python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p evidence
echo ok
