#!/bin/bash
# replay.sh FILE: rebuild from /repo's working tree and re-execute one recorded violation.
# Exit 1 and the same VIOLATION line if it happens again, 0 if not.
file=$(readlink -f "$1")
cd "$(dirname "$0")" || exit 2
. ./build.sh
exec target/release/yamlsim replay "$file"
