#!/bin/bash
# nothing to compile: check that the interpreter and the code under test load
. /opt/vp/env.sh
cd "$(dirname "$0")" && $PY -B -c "import sys; sys.path.insert(0, '.'); import mc.core, skdecide; print('ready')"
