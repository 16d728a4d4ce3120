#!/bin/bash
# Warms the build cache by building every kind of check once, without running any.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_BUILD_ONLY=1
./run.sh C22 quick && ./run.sh C14 quick && ./run.sh C21 quick && ./run.sh C26 quick
