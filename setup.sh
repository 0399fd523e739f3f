#!/bin/bash
# Warms the build cache for both kinds of builds; the checks work without it.
cd "$(dirname "$0")" || exit 2
./run.sh C01 -build || exit 2
./run.sh C11 -build || exit 2
