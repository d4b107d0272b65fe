#!/bin/bash
# Builds everything the checks build, so that they start faster.
cd "$(dirname "$0")" || exit 2
./build.sh && ./cfgs.sh
