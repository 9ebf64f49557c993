#!/bin/bash
# Nothing to build: HGQ is pure Python and is imported from /repo's working tree.  Checks that the environment can run a simulation.
cd "$(dirname "$0")" && mkdir -p evidence replays && /opt/venv/bin/python -B -c 'import sim.env; print("simulator imports HGQ from", sim.env.HGQ.__file__)'
