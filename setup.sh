#!/bin/bash
# Builds the simulation once; every check rebuilds it from /repo's current tree.
cd "$(dirname "$0")" && python3 -c 'import sys; sys.path.insert(0, "tools"); import mv; mv.build()'
