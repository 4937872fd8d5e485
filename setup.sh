#!/bin/bash
# Builds the tools and both simulators.
cd "$(dirname "$0")" && . tools/env.sh && vsim_build && "$VSIM" build && "$VSIM" build race
