#!/bin/bash
# Builds the harness (and with it /repo's crate and its dependencies) once.
set -e
cd "$(dirname "$0")"
python3 -c "import sys; sys.path.insert(0, 'lib'); import core; core.build()"
