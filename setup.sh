#!/bin/bash
# Builds every check once, so that the runs find the build cache warm.
# A check builds itself again from /repo's current tree when it runs.
set -u
cd "$(dirname "$0")" || exit 1
rc=0
for d in harness/cmd/c*/; do
	id=$(basename "$d" | tr a-z A-Z)
	BUILD_ONLY=1 bash check.sh "$id" || rc=1
done
exit $rc
