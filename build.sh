#!/bin/bash
# Builds the checker against the current tree of /repo.
set -e
cd "$(dirname "$0")/mc"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB=* GONOSUMCHECK=1
mkdir -p ../.bin
go build -o ../.bin/mc .
if [ "$1" = race ]; then
  rm -f ../.bin/mc-race
  go build -race -o ../.bin/mc-race . || echo "no race build" >&2
fi
