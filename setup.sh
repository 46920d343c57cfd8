#!/bin/bash
# Builds the harness once, which fills the build cache.
set -u
out=$(mktemp) || exit 2
bash "$(dirname "$0")/check.sh" build "$out"
rc=$?
rm -f "$out"
exit $rc
