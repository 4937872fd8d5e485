#!/bin/bash
# replay.sh FILE: repeat a recorded violation against the current tree
f=$(realpath "$1") && cd "$(dirname "$0")" && . tools/env.sh && vsim_build && exec "$VSIM" replay "$f"
