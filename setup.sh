#!/bin/bash
# nothing to build: checks encode /repo's source on every run
. /opt/vp/env.sh
cd "$(dirname "$(realpath "$0")")" && mkdir -p evidence && /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.')
from sym import engine; print('z3', engine.z3.get_version_string())"
