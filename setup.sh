#!/bin/bash
# Builds the simulators and, from /repo's current tree, dredd; the checks rebuild whatever changed.
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1
python3 - <<'P'
import sys
sys.path.insert(0, 'lib')
import vlib
vlib.build_toolsim()
for v in ('dbg', 'rel'):
    vlib.build_dredd(v)
if hasattr(vlib, 'build_rtsim'):
    vlib.build_rtsim()
P
