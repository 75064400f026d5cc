#!/bin/bash
# Nothing to build: check that the tools and the specification are usable.
set -e
cd "$(dirname "$0")/.."
java -version >/dev/null 2>&1
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c "import numpy, rustworkx"
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
cd spec
for m in MC_*.tla T_*.tla; do
  java -Djava.io.tmpdir="$scratch" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
    tla2sany.SANY "$m" > "$scratch/sany.log" 2>&1 || { cat "$scratch/sany.log"; exit 1; }
done
echo "setup: all modules parse"
