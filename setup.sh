#!/bin/bash
# Build the simulator once, offline.
cd "$(dirname "$0")" || exit 2
. ./build.sh
