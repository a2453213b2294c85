#!/bin/bash
# Decides one property: ./check.sh C01 [gosym flags]. Builds the engine when it
# is missing or older than its sources; everything about /repo is regenerated.
set -e
cd "$(dirname "$0")"
id=$1; shift
if [ ! -x bin/gosym ] || [ -n "$(find gosym build.sh -newer bin/gosym -print -quit)" ]; then
  ./build.sh
fi
mkdir -p evidence
exec ./bin/gosym -prop "$id" -dir harness -pkg "./$(echo "$id" | tr A-Z a-z)" \
  -evidence "evidence/$id.json" -known known_findings.json -meta assumptions.json "$@"
