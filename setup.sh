#!/bin/bash
# Nothing is compiled: the checks import the package from /repo's working
# tree in every run. This only verifies that the interpreter can do so.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence/replays
PYTHONDONTWRITEBYTECODE=1 /opt/pvenv/bin/python -W ignore -c '
from sim import seams
seams.install()
import sim.core, sim.world
print("ready")'
