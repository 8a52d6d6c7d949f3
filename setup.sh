#!/bin/bash
# builds the symbolic executor (everything else is built by each check from /repo's current tree)
cd "$(dirname "$0")" && bash engine/build_engine.sh
