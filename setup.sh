#!/bin/bash
# Nothing to build: Python harness + TLA+ specs. Check that the tools are there and that every spec parses.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c "import numpy, pandas, sklearn"
mkdir -p evidence out
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
for f in spec/*.tla; do
  (cd spec && java -Djava.io.tmpdir="$T" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$f")" >"$T/log" 2>&1) || { cat "$T/log"; exit 1; }
done
echo "setup ok"
