#!/bin/bash
# check.sh PROPERTY [quick|thorough] [more simcheck options]
# Builds the simulator from /repo's working tree and searches for violations of one property.
# Exit 0: none found; 1: violation (printed, with replay file); anything else: no answer.
cd "$(dirname "$0")" || exit 2
root=$(pwd)
prop=$1; tier=${2:-quick}; shift; shift
if ! bash sim/build.sh >"/tmp/simcheck-build.$$" 2>&1; then
  tail -40 "/tmp/simcheck-build.$$" >&2; rm -f "/tmp/simcheck-build.$$"
  echo "harness error: the simulator does not build" >&2
  exit 2
fi
rm -f "/tmp/simcheck-build.$$"
exec sim/target/release/simcheck check --property "$prop" --tier "$tier" --root "$root" "$@"
