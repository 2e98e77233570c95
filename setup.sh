#!/bin/bash
# Builds the generator harness from /repo's current tree (checks rebuild it themselves as well).
set -e
cd "$(dirname "$0")"
python3 -c 'from vf import common; print(common.build_fgen())'
