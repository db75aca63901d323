#!/bin/bash
# Builds everything once, which also warms the build cache for the checks.
cd "$(dirname "$0")" || exit 1
dir=$(mktemp -d "${TMPDIR:-/tmp}/verif-setup.XXXXXXXX") || exit 1
bash run.sh build "$dir"
rc=$?
rm -rf "$dir"
exit $rc
