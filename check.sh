#!/bin/bash
# check.sh PROPERTY quick|thorough: build the simulator from /repo's working tree and run one check.
# Exit 0: held; 1: VIOLATION; 2: the check could not be carried out.
cd "$(dirname "$0")" || exit 2
. ./build.sh
exec target/release/yamlsim check "$1" "${2:-quick}"
