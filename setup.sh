#!/bin/bash
# Build the IR dumper and warm the front end once.
set -e
cd "$(dirname "$0")"
python3 -B -c 'import sys; sys.path.insert(0, "."); from sa import frontend; frontend.build_tool(); frontend.load()'
echo setup ok
