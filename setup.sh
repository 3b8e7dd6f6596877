#!/bin/bash
# Nothing has to be installed: every check compiles its own harness from /repo's current tree into /verif/build.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
command -v mpicxx >/dev/null && command -v python3 >/dev/null
python3 -c "import json; json.load(open('checks.json')); json.load(open('MANIFEST.json'))"
