#!/bin/bash
# Nothing to build: checks run the real source from /repo with the installed
# interpreters.  Verifies that the tools are where the checks expect them.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
./run.py selftest
