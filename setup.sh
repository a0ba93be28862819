#!/bin/bash
# Builds the verifier (offline, vendored dependencies) into bin/gov when its sources changed.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/gov"
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local
mkdir -p "$here/bin"
if [ ! -x "$here/bin/gov" ] || [ -n "$(find . -maxdepth 1 -name '*.go' -newer "$here/bin/gov" -print -quit)" ]; then
  go build -o "$here/bin/gov.$$" . && mv "$here/bin/gov.$$" "$here/bin/gov"
fi
