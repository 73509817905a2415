#!/bin/sh
# Builds the drivers once; every check rebuilds them when /repo changed.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence build
exec python3 - <<'PY'
import sys, glob, os
sys.path.insert(0, 'lib')
import vlib
for d in sorted(glob.glob('harness/*.cpp')):
    vlib.build(os.path.basename(d)[:-4], 'plain')
PY
