#!/bin/sh
# nothing to prepare: every check compiles what it needs; only look that the tools are there
cd "$(dirname "$0")" || exit 1
for t in java python3 /usr/bin/clang++-18; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
test -f /opt/veriftools/tla/tla2tools.jar || exit 1
python3 -c 'import json;json.load(open("MANIFEST.json"))'
