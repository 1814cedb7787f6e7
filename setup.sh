#!/bin/bash
# Checks that the toolchain the simulators need is there; every check builds from /repo's current tree by itself.
set -e
cd "$(dirname "$0")"
g++ --version | head -1
python3 --version
python3 -c "import json; json.load(open('MANIFEST.json'))"
