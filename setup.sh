#!/bin/bash
# Parses every specification; nothing to build, the checks import /repo's working tree.
set -e
cd "$(dirname "$0")/spec"
mkdir -p ../evidence
for m in *.tla; do
  case $m in Engine.tla|GInt.tla|Kernels.tla) continue;; esac
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
/opt/venv/bin/python -c "import numpy, scipy, matplotlib"
echo ok
