#!/bin/bash
# check.sh <property> quick|thorough    (or: <property> replay <case> <seed> [--thorough])
cd "$(dirname "$0")" && exec python3-vt vc/run.py "$@"
