#!/bin/bash
# builds the SSA exporter (offline) into the git-ignored .build directory
set -e
cd "$(dirname "$0")"
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
mkdir -p .build
(cd exporter && go build -o ../.build/export.tmp$$ . && mv ../.build/export.tmp$$ ../.build/export)
