#!/bin/bash
# nothing is kept between runs: checks that the tools are there and the specification parses
set -e
cd "$(dirname "$0")/../spec"
d=$(mktemp -d /tmp/sacf-setup-XXXXXX)
trap 'rm -rf "$d"' EXIT
cp ./*.tla ./*.java "$d"/
cd "$d"
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d "$d" Rat.java
for m in Session Machine Trace MCPairs MCGrid MCValue MCSession MCShape MCFile MCWeights; do
  java -cp "$d:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar" tla2sany.SANY $m.tla > out.txt 2>&1 \
    || { cat out.txt; exit 1; }
  if grep -q -e '\*\*\* Errors' -e 'Fatal' out.txt; then cat out.txt; exit 1; fi
done
/opt/venv-pypy/bin/python -c 'import pybind11' 2>/dev/null || true
echo "setup ok"
