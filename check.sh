#!/bin/bash
# check.sh PROPERTY [quick|thorough]: see DESIGN.md
cd "$(dirname "$0")" && . tools/env.sh && vsim_build && exec "$VSIM" check "$@"
