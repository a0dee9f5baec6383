#!/bin/bash
# Builds the driver and the witness crate's dependencies once (a check does it itself if this was not run).
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
T="$(mktemp -d build/setup-XXXXXX)"
./build.sh "$PWD/$T" > build/setup.log 2>&1 || { tail -20 build/setup.log; }
rm -rf "$PWD/$T"
exit 0
