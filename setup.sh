#!/bin/bash
# setup.sh: compiles all programs, which warms the build cache.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
set -e
mkdir -p "$VERIF/out/bin" "$VERIF/evidence"
(cd "$VERIF/harness" && go build -o "$VERIF/out/bin/" ./props/...)
build C17
