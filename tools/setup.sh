#!/bin/sh
# Nothing is built ahead: check the tools and parse every specification.
set -e
cd "$(dirname "$0")/../spec"
/opt/venv/bin/python -c "import sys; sys.path.insert(0, '/repo'); import numpy, scipy, metku"
d=$(mktemp -d)
cp ./*.tla "$d"
cd "$d"
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > out.txt 2>&1 || { cat out.txt; rm -rf "$d"; exit 1; }
done
rm -rf "$d"
echo "specifications parse"
